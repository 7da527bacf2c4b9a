// C25: shared_ref, unique_ref, shared, destructable: ownership, identity, casts
#include "pbt.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <typeinfo>
#include <variant>

#include <utki/destructable.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>

const char* const pbt::rule =
	"at least one reference is moved, assigned over another one, converted or cast while the object has another owner";

namespace {
// all objects ever made in the case; the destructor of the most derived class and of the root report here
struct object_info {
	const void* root = nullptr; // address of the root subobject
	char kind = 0; // most derived class
	int constructed = 0;
	int destroyed_root = 0;
	int destroyed_derived = 0;
	int value = 0;
};

struct registry_type {
	std::vector<object_info> objects;
} registry;

// hierarchy with diamond
struct base : virtual public utki::shared {
	int id;
	int value;

	base(int id, int value) :
		id(id),
		value(value)
	{
		registry.objects[size_t(id)].root = this;
		++registry.objects[size_t(id)].constructed;
	}

	base(const base&) = delete;
	base& operator=(const base&) = delete;

	~base() override
	{
		++registry.objects[size_t(id)].destroyed_root;
	}

	friend bool operator==(const base& l, const base& r)
	{
		return l.value == r.value;
	}

	friend bool operator<(const base& l, const base& r)
	{
		return l.value < r.value;
	}
};

struct pad1 {
	virtual ~pad1() = default;
	int p1[3] = {1, 2, 3};
};

struct a_type : public pad1, virtual public base {
	std::unique_ptr<int> extra;

	a_type(int id, int value, std::unique_ptr<int> extra) :
		base(id, value),
		extra(std::move(extra))
	{}

	~a_type() override
	{
		if (extra) {
			registry.objects[size_t(id)].destroyed_derived += *extra;
		}
	}
};

struct b_type : virtual public base {
	long b = 77;

	b_type(int id, int value) :
		base(id, value)
	{}

	~b_type() override
	{
		if (registry.objects[size_t(id)].kind == 'b') {
			++registry.objects[size_t(id)].destroyed_derived;
		}
	}
};

struct c_type : public b_type, public a_type {
	c_type(int id, int value, std::unique_ptr<int> extra) :
		base(id, value),
		b_type(id, value),
		a_type(id, value, std::move(extra))
	{}
};

template <typename t>
using sref = utki::shared_ref<t>;

using ref_var = std::variant<
	std::monostate,
	sref<base>,
	sref<a_type>,
	sref<b_type>,
	sref<c_type>,
	sref<const base>,
	sref<const a_type>,
	sref<const c_type>>;

using ptr_var = std::variant<
	std::monostate,
	std::shared_ptr<base>,
	std::shared_ptr<a_type>,
	std::shared_ptr<b_type>,
	std::shared_ptr<c_type>,
	std::shared_ptr<const base>,
	std::shared_ptr<const a_type>,
	std::shared_ptr<const c_type>>;

using weak_var = std::variant<
	std::monostate,
	std::weak_ptr<base>,
	std::weak_ptr<a_type>,
	std::weak_ptr<b_type>,
	std::weak_ptr<c_type>,
	std::weak_ptr<const base>,
	std::weak_ptr<const a_type>,
	std::weak_ptr<const c_type>>;

template <typename t>
const char* name()
{
	using u = std::remove_const_t<t>;
	if constexpr (std::is_same_v<u, base>) {
		return "base";
	} else if constexpr (std::is_same_v<u, a_type>) {
		return "a";
	} else if constexpr (std::is_same_v<u, b_type>) {
		return "b";
	} else {
		return "c";
	}
}

template <typename r>
struct elem;
template <typename t>
struct elem<sref<t>> {
	using type = t;
};
template <typename t>
struct elem<std::shared_ptr<t>> {
	using type = t;
};
template <typename t>
struct elem<std::weak_ptr<t>> {
	using type = t;
};
template <>
struct elem<std::monostate> {
	using type = void;
};
template <typename r>
using elem_t = typename elem<std::decay_t<r>>::type;

// is object of kind k also a t
template <typename t>
bool kind_is(char k)
{
	using u = std::remove_const_t<t>;
	if (std::is_same_v<u, base>) {
		return true;
	}
	if (std::is_same_v<u, a_type>) {
		return k == 'a' || k == 'c';
	}
	if (std::is_same_v<u, b_type>) {
		return k == 'b' || k == 'c';
	}
	return k == 'c';
}

struct world {
	pbt::gen& g;
	std::vector<ref_var> refs;
	std::vector<int> ref_id; // -1: empty or moved from
	std::vector<ptr_var> ptrs;
	std::vector<int> ptr_id;
	std::vector<weak_var> weaks;
	std::vector<int> weak_id;

	world(pbt::gen& g) :
		g(g),
		refs(6),
		ref_id(6, -1),
		ptrs(3),
		ptr_id(3, -1),
		weaks(3),
		weak_id(3, -1)
	{
		registry.objects.clear();
	}

	long owners(int id) const
	{
		long n = 0;
		for (auto i : ref_id) {
			n += i == id;
		}
		for (auto i : ptr_id) {
			n += i == id;
		}
		return n;
	}

	int pick_ref()
	{
		std::vector<int> v;
		for (size_t i = 0; i != refs.size(); ++i) {
			if (ref_id[i] >= 0) {
				v.push_back(int(i));
			}
		}
		if (v.empty()) {
			return -1;
		}
		return v[g.choice(v.size() - 1)];
	}

	void put_ref(size_t slot, ref_var r, int id)
	{
		refs[slot] = std::move(r);
		ref_id[slot] = id;
	}

	void verify()
	{
		for (size_t id = 0; id != registry.objects.size(); ++id) {
			auto& o = registry.objects[id];
			auto n = owners(int(id));
			CHECK_EQ(o.constructed, 1, " constructions of object ", id);
			CHECK_EQ(o.destroyed_root, n == 0 ? 1 : 0, " destructions of object ", id, " which has ", n, " owners");
			if (n == 0) {
				CHECK_EQ(o.destroyed_derived, o.kind == 'B' ? 0 : 1, " destructions of the most derived part of object ", id);
			}
		}
		for (size_t i = 0; i != refs.size(); ++i) {
			if (ref_id[i] < 0) {
				continue;
			}
			auto id = ref_id[i];
			auto n = owners(id);
			std::visit(
				[&](auto& r) {
					using t = elem_t<decltype(r)>;
					if constexpr (!std::is_void_v<t>) {
						t& o = r.get();
						CHECK_EQ(o.id, id, " object of reference ", i);
						CHECK(static_cast<const base*>(&o) == registry.objects[size_t(id)].root, "address of object of reference ", i);
						t& conv = r;
						CHECK(&conv == &o, "conversion to reference");
						const std::shared_ptr<t>& sp = r;
						CHECK(sp.get() == &o && r.to_shared_ptr().get() == &o, "shared_ptr of reference ", i);
						CHECK_EQ(r.to_shared_ptr().use_count(), n, " owners of object ", id);
					}
				},
				refs[i]
			);
		}
		for (size_t i = 0; i != weaks.size(); ++i) {
			if (weak_id[i] < 0) {
				continue;
			}
			auto id = weak_id[i];
			std::visit(
				[&](auto& w) {
					using t = elem_t<decltype(w)>;
					if constexpr (!std::is_void_v<t>) {
						CHECK_EQ(w.expired(), owners(id) == 0, " expiry of weak pointer ", i, " to object ", id);
						auto l = w.lock();
						CHECK_EQ(bool(l), owners(id) != 0, " lock of weak pointer");
						if (l) {
							CHECK_EQ(l->id, id, " object of weak pointer");
						}
					}
				},
				weaks[i]
			);
		}
	}
};

template <typename t>
sref<t> make(int value, char kind)
{
	int id = int(registry.objects.size());
	registry.objects.emplace_back();
	registry.objects.back().kind = kind;
	registry.objects.back().value = value;
	if constexpr (std::is_same_v<t, base> || std::is_same_v<t, b_type>) {
		return utki::make_shared<t>(id, value);
	} else {
		return utki::make_shared<t>(id, value, std::make_unique<int>(1));
	}
}

template <typename f>
void with_type(size_t n, f func)
{
	switch (n) {
		case 0:
			func(static_cast<base*>(nullptr));
			break;
		case 1:
			func(static_cast<a_type*>(nullptr));
			break;
		case 2:
			func(static_cast<b_type*>(nullptr));
			break;
		case 3:
			func(static_cast<c_type*>(nullptr));
			break;
		case 4:
			func(static_cast<const base*>(nullptr));
			break;
		case 5:
			func(static_cast<const a_type*>(nullptr));
			break;
		default:
			func(static_cast<const c_type*>(nullptr));
			break;
	}
}
} // namespace

PROPERTY("shared", 5)
{
	world w(g);
	bool nontrivial = false;
	auto steps = 1 + g.size(25);
	for (size_t step = 0; step != steps; ++step) {
		auto slot = size_t(g.choice(w.refs.size() - 1));
		auto op = g.choice(13);
		int src = op == 0 ? 0 : w.pick_ref();
		if (src < 0) {
			op = 0;
		}
		switch (op) {
			case 0: // create
				{
					int value = int(g.choice(3));
					auto k = g.choice(3);
					int id = int(registry.objects.size());
					g.say([&] {
						return pbt::cat("r", slot, " = make ", "Babc"[k], " object ", id, " value ", value);
					});
					switch (k) {
						case 0:
							w.put_ref(slot, make<base>(value, 'B'), id);
							break;
						case 1:
							w.put_ref(slot, make<a_type>(value, 'a'), id);
							break;
						case 2:
							w.put_ref(slot, make<b_type>(value, 'b'), id);
							break;
						default:
							w.put_ref(slot, make<c_type>(value, 'c'), id);
							break;
					}
				}
				break;
			case 1: // copy to another slot, or over itself
				g.say([&] {
					return pbt::cat("r", slot, " = r", src);
				});
				w.refs[slot] = w.refs[size_t(src)];
				w.ref_id[slot] = w.ref_id[size_t(src)];
				nontrivial = true;
				break;
			case 2: // move
				if (slot != size_t(src)) {
					g.say([&] {
						return pbt::cat("r", slot, " = move r", src);
					});
					w.refs[slot] = std::move(w.refs[size_t(src)]);
					w.ref_id[slot] = w.ref_id[size_t(src)];
					w.ref_id[size_t(src)] = -1;
					nontrivial = true;
				}
				break;
			case 3: // drop
				g.say([&] {
					return pbt::cat("drop r", src);
				});
				w.refs[size_t(src)] = std::monostate();
				w.ref_id[size_t(src)] = -1;
				break;
			case 4: // assign over a reference of another type: conversion plus assignment
				g.say([&] {
					return pbt::cat("convert r", src, " to type of r", slot);
				});
				std::visit(
					[&](auto& d, auto& s) {
						using dt = elem_t<decltype(d)>;
						using st = elem_t<decltype(s)>;
						if constexpr (!std::is_void_v<dt> && !std::is_void_v<st>) {
							if constexpr (std::is_convertible_v<st*, dt*>) {
								d = s;
								w.ref_id[slot] = w.ref_id[size_t(src)];
								nontrivial = true;
							}
						}
					},
					w.refs[slot],
					w.refs[size_t(src)]
				);
				break;
			case 5:
			case 6: // cast
				with_type(g.choice(6), [&](auto* tag) {
					using dt = std::remove_pointer_t<decltype(tag)>;
					int id = w.ref_id[size_t(src)];
					bool can = kind_is<dt>(registry.objects[size_t(id)].kind);
					std::optional<sref<dt>> result;
					bool thrown = false;
					bool applied = false;
					std::visit(
						[&](auto& s) {
							using st = elem_t<decltype(s)>;
							if constexpr (!std::is_void_v<st>) {
								if constexpr (!std::is_const_v<st> || std::is_const_v<dt>) {
									applied = true;
									thrown = pbt::throws<std::bad_cast>([&] {
										result.emplace(utki::dynamic_reference_cast<dt>(s));
									});
								}
							}
						},
						w.refs[size_t(src)]
					);
					if (applied) {
						g.say([&] {
							return pbt::cat("r", slot, " = cast r", src, " to ", std::is_const_v<dt> ? "const " : "", name<dt>());
						});
						CHECK_EQ(thrown, !can, " bad_cast of object of kind ", registry.objects[size_t(id)].kind, " to ", name<dt>());
						if (result) {
							w.put_ref(slot, std::move(*result), id);
						} else {
							g.label("bad_cast");
						}
						nontrivial = true;
					}
				});
				break;
			case 7: // weak pointer
			case 8:
				{
					auto ws = size_t(g.choice(w.weaks.size() - 1));
					auto how = g.choice(3);
					int id = w.ref_id[size_t(src)];
					g.say([&] {
						return pbt::cat("w", ws, " = weak pointer from r", src, " way ", how);
					});
					std::visit(
						[&](auto& s) {
							using st = elem_t<decltype(s)>;
							if constexpr (!std::is_void_v<st>) {
								switch (how) {
									case 0:
										w.weaks[ws] = utki::make_weak(s);
										break;
									case 1:
										{
											std::weak_ptr<st> p = s;
											w.weaks[ws] = p;
										}
										break;
									case 2:
										w.weaks[ws] = utki::make_weak_from(s.get());
										break;
									default:
										w.weaks[ws] = utki::make_weak(s.to_shared_ptr());
										break;
								}
								w.weak_id[ws] = id;
							}
						},
						w.refs[size_t(src)]
					);
				}
				break;
			case 9: // reference from object
				{
					int id = w.ref_id[size_t(src)];
					g.say([&] {
						return pbt::cat("r", slot, " = make_shared_from(object of r", src, ")");
					});
					std::optional<ref_var> r;
					std::visit(
						[&](auto& s) {
							using st = elem_t<decltype(s)>;
							if constexpr (!std::is_void_v<st>) {
								st& o = s;
								r = ref_var(utki::make_shared_from(o));
							}
						},
						w.refs[size_t(src)]
					);
					w.put_ref(slot, std::move(*r), id);
					nontrivial = true;
				}
				break;
			case 10: // shared_ptr out
				{
					auto ps = size_t(g.choice(w.ptrs.size() - 1));
					int id = w.ref_id[size_t(src)];
					bool to_const = g.boolean();
					g.say([&] {
						return pbt::cat("p", ps, " = ", to_const ? "const " : "", "shared_ptr of r", src);
					});
					std::visit(
						[&](auto& s) {
							using st = elem_t<decltype(s)>;
							if constexpr (!std::is_void_v<st>) {
								if constexpr (!std::is_const_v<st> && !std::is_same_v<st, b_type>) {
									if (to_const) {
										std::shared_ptr<const st> p = s;
										w.ptrs[ps] = p;
										w.ptr_id[ps] = id;
										return;
									}
								}
								w.ptrs[ps] = s.to_shared_ptr();
								w.ptr_id[ps] = id;
							}
						},
						w.refs[size_t(src)]
					);
					nontrivial = true;
				}
				break;
			case 11: // from shared_ptr
				{
					auto ps = size_t(g.choice(w.ptrs.size() - 1));
					if (w.ptr_id[ps] >= 0) {
						bool move = g.boolean();
						int id = w.ptr_id[ps];
						g.say([&] {
							return pbt::cat("r", slot, " = shared_ref(", move ? "move " : "", "p", ps, ")");
						});
						std::optional<ref_var> r;
						std::visit(
							[&](auto& p) {
								using t = elem_t<decltype(p)>;
								if constexpr (!std::is_void_v<t>) {
									if (move) {
										r = ref_var(sref<t>(std::move(p)));
									} else {
										r = ref_var(sref<t>(p));
									}
								}
							},
							w.ptrs[ps]
						);
						if (move) {
							w.ptr_id[ps] = -1;
							w.ptrs[ps] = std::monostate();
						}
						w.put_ref(slot, std::move(*r), id);
						nontrivial = true;
					}
				}
				break;
			case 12: // drop shared_ptr
				{
					auto ps = size_t(g.choice(w.ptrs.size() - 1));
					g.say([&] {
						return pbt::cat("drop p", ps);
					});
					w.ptrs[ps] = std::monostate();
					w.ptr_id[ps] = -1;
				}
				break;
			default: // compare
				{
					int other = w.pick_ref();
					std::visit(
						[&](auto& l, auto& r) {
							using lt = elem_t<decltype(l)>;
							using rt = elem_t<decltype(r)>;
							if constexpr (!std::is_void_v<lt> && std::is_same_v<lt, rt>) {
								int lv = registry.objects[size_t(w.ref_id[size_t(src)])].value;
								int rv = registry.objects[size_t(w.ref_id[size_t(other)])].value;
								const auto& cl = l;
								const auto& cr = r;
								CHECK_EQ(cl == cr, lv == rv, " equality");
								CHECK_EQ(cl == cr.get(), lv == rv, " equality with object");
								CHECK_EQ(cl < cr.get(), lv < rv, " less than object");
								g.label("compare");
							}
						},
						w.refs[size_t(src)],
						w.refs[size_t(other)]
					);
				}
				break;
		}
		w.verify();
	}
	for (size_t i = 0; i != w.refs.size(); ++i) {
		w.refs[i] = std::monostate();
		w.ref_id[i] = -1;
	}
	w.verify();
	for (size_t i = 0; i != w.ptrs.size(); ++i) {
		w.ptrs[i] = std::monostate();
		w.ptr_id[i] = -1;
	}
	w.verify();
	if (nontrivial) {
		g.nontrivial();
	}
}

// enable_shared_from_this of the standard library
namespace {
struct esft : public std::enable_shared_from_this<esft> {
	int id;
	bool* dead;

	esft(int id, bool* dead) :
		id(id),
		dead(dead)
	{}

	esft(const esft&) = delete;

	~esft()
	{
		*dead = true;
	}
};
} // namespace

PROPERTY("shared_from", 1)
{
	bool dead = false;
	int id = int(g.choice(1000));
	std::optional<sref<esft>> r(utki::make_shared<esft>(id, &dead));
	std::vector<sref<esft>> copies;
	std::vector<std::weak_ptr<esft>> weaks;
	std::vector<sref<const esft>> const_copies;
	auto n = g.large(10, 300);
	for (size_t i = 0; i != n; ++i) {
		auto& o = r->get();
		switch (g.choice(3)) {
			case 0:
				copies.push_back(utki::make_shared_from(o));
				break;
			case 1:
				weaks.push_back(utki::make_weak_from(o));
				break;
			case 2:
				const_copies.push_back(*r);
				break;
			default:
				if (!copies.empty()) {
					copies.pop_back();
				}
				break;
		}
		CHECK_EQ(r->to_shared_ptr().use_count(), long(1 + copies.size() + const_copies.size()), " owners");
		for (auto& c : copies) {
			CHECK(&c.get() == &r->get(), "make_shared_from of another object");
		}
		for (auto& w : weaks) {
			CHECK(w.lock().get() == &r->get(), "make_weak_from of another object");
		}
	}
	if (n >= 2) {
		g.nontrivial();
	}
	r.reset();
	CHECK_EQ(dead, copies.empty() && const_copies.empty(), " lifetime");
	for (auto& w : weaks) {
		CHECK_EQ(w.expired(), dead, " expiry");
	}
	copies.clear();
	const_copies.clear();
	CHECK(dead, "not destroyed");
	for (auto& w : weaks) {
		CHECK(w.expired(), "weak pointer keeps the object");
	}
	g.say([&] {
		return pbt::cat("object ", id, " ", n, " operations");
	});

	// an object which nobody owns gives no reference
	{
		bool d = false;
		esft on_stack(1, &d);
		CHECK((pbt::throws<std::bad_weak_ptr>([&] { utki::make_shared_from(on_stack); })), "reference to object nobody owns");
		CHECK(utki::make_weak_from(on_stack).expired(), "weak pointer to object nobody owns");
		registry.objects.clear();
		registry.objects.emplace_back();
		base b(0, 1);
		CHECK((pbt::throws<std::bad_weak_ptr>([&] { utki::make_shared_from(b); })), "reference to object nobody owns");
		CHECK((pbt::throws<std::bad_weak_ptr>([&] { utki::make_weak_from(b); })), "reference to object nobody owns");
	}
}

// references in containers are ordered by objects
PROPERTY("containers", 1)
{
	std::vector<sref<int>> v;
	std::set<sref<int>> s;
	std::set<int> model;
	std::map<sref<std::string>, int> m;
	std::map<std::string, int> mm;
	auto n = g.large(12, 300);
	for (size_t i = 0; i != n; ++i) {
		int x = int(g.choice(6));
		v.push_back(utki::make_shared<int>(x));
		CHECK_EQ(s.insert(v.back()).second, model.insert(x).second, " insertion");
		auto key = g.text(2, "ab");
		m.insert_or_assign(utki::make_shared<std::string>(key), int(i));
		mm[key] = int(i);
	}
	std::vector<int> got;
	for (auto& r : s) {
		got.push_back(r.get());
	}
	CHECK_EQ(got, std::vector<int>(model.begin(), model.end()), " ordered set");
	std::vector<std::string> keys;
	std::vector<int> vals;
	for (auto& p : m) {
		keys.push_back(p.first.get());
		vals.push_back(p.second);
	}
	std::vector<std::string> ekeys;
	std::vector<int> evals;
	for (auto& p : mm) {
		ekeys.push_back(p.first);
		evals.push_back(p.second);
	}
	CHECK_EQ(keys, ekeys, " ordered map keys");
	CHECK_EQ(vals, evals, " ordered map values");
	if (model.size() >= 2) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("set ", got);
	});
	auto rot = g.choice(8);
	if (!v.empty()) {
		std::rotate(v.begin(), v.begin() + std::ptrdiff_t(rot % v.size()), v.end());
		std::sort(v.begin(), v.end(), [](const auto& l, const auto& r) { return l < r.get(); });
		CHECK(std::is_sorted(v.begin(), v.end(), [](const auto& l, const auto& r) { return l.get() < r.get(); }), "sort");
		std::multiset<int> ms;
		for (auto& r : v) {
			ms.insert(r.get());
		}
		CHECK_EQ(ms.size(), n, " size");
	}
}

namespace {
struct uregistry_type {
	std::vector<int> alive;
} uregistry;

struct ubase {
	int id;
	int value;

	ubase(int id, int value) :
		id(id),
		value(value)
	{
		++uregistry.alive[size_t(id)];
	}

	ubase(const ubase&) = delete;

	virtual ~ubase()
	{
		--uregistry.alive[size_t(id)];
	}

	friend bool operator==(const ubase& l, const ubase& r)
	{
		return l.value == r.value;
	}

	friend bool operator<(const ubase& l, const ubase& r)
	{
		return l.value < r.value;
	}
};

struct uother {
	int pad[5] = {};
	virtual ~uother() = default;
};

struct ua : public uother, public ubase {
	std::unique_ptr<int> extra;

	ua(int id, int value, std::unique_ptr<int> e) :
		ubase(id, value),
		extra(std::move(e))
	{
		uregistry.alive[size_t(id)] += *extra;
	}

	~ua() override
	{
		uregistry.alive[size_t(id)] -= *extra;
	}
};

struct uc : public utki::destructable, public ua {
	uc(int id, int value, std::unique_ptr<int> e) :
		ua(id, value, std::move(e))
	{
		uregistry.alive[size_t(id)] += 100;
	}

	~uc() override
	{
		uregistry.alive[size_t(id)] -= 100;
	}
};

template <typename t>
using uref = utki::unique_ref<t>;
using uvar = std::variant<std::monostate, uref<ubase>, uref<ua>, uref<uc>, uref<const ubase>>;

template <typename t>
struct elem<uref<t>> {
	using type = t;
};
} // namespace

PROPERTY("unique", 3)
{
	uregistry.alive.clear();
	std::vector<int> full; // alive count of the object when alive
	std::vector<int> values;
	std::vector<uvar> slots(4);
	std::vector<int> ids(4, -1);
	std::vector<std::pair<int, std::unique_ptr<utki::destructable>>> handles;
	bool nontrivial = false;
	auto steps = 1 + g.size(25);
	for (size_t step = 0; step != steps; ++step) {
		auto dst = size_t(g.choice(slots.size() - 1));
		auto src = size_t(g.choice(slots.size() - 1));
		auto op = g.choice(6);
		if (ids[src] < 0) {
			op = 0;
			dst = src;
		}
		switch (op) {
			case 0:
				{
					int id = int(full.size());
					int value = int(g.choice(2));
					auto k = g.choice(2);
					uregistry.alive.push_back(0);
					values.push_back(value);
					g.say([&] {
						return pbt::cat("u", dst, " = make kind ", k, " object ", id);
					});
					switch (k) {
						case 0:
							full.push_back(1);
							slots[dst] = utki::make_unique<ubase>(id, value);
							break;
						case 1:
							full.push_back(11);
							slots[dst] = utki::make_unique<ua>(id, value, std::make_unique<int>(10));
							break;
						default:
							full.push_back(111);
							slots[dst] = utki::make_unique<uc>(id, value, std::make_unique<int>(10));
							break;
					}
					ids[dst] = id;
				}
				break;
			case 1: // move
			case 2: // convert
				if (dst != src) {
					g.say([&] {
						return pbt::cat("u", dst, " = move u", src, op == 2 ? " keeping type" : "");
					});
					if (op == 1) {
						slots[dst] = std::move(slots[src]);
						ids[dst] = ids[src];
						ids[src] = -1;
						nontrivial = true;
					} else {
						std::visit(
							[&](auto& d, auto& s) {
								using dt = elem_t<decltype(d)>;
								using st = elem_t<decltype(s)>;
								if constexpr (!std::is_void_v<dt> && !std::is_void_v<st>) {
									if constexpr (std::is_convertible_v<st*, dt*>) {
										d = std::move(s);
										ids[dst] = ids[src];
										ids[src] = -1;
										nontrivial = true;
									}
								}
							},
							slots[dst],
							slots[src]
						);
					}
				}
				break;
			case 3: // drop
				g.say([&] {
					return pbt::cat("drop u", src);
				});
				slots[src] = std::monostate();
				ids[src] = -1;
				break;
			case 4: // through unique_ptr
				g.say([&] {
					return pbt::cat("u", src, " to unique_ptr and to u", dst);
				});
				{
					int id = ids[src];
					uvar r;
					bool dropped = g.chance(1, 5);
					std::visit(
						[&](auto& s) {
							using st = elem_t<decltype(s)>;
							if constexpr (!std::is_void_v<st>) {
								auto* before = &s.get();
								std::unique_ptr<st> p = std::move(s).to_unique_ptr();
								CHECK(p.get() == before, "to_unique_ptr gives another object");
								if (!dropped) {
									r = uvar(uref<st>(std::move(p)));
								}
							}
						},
						slots[src]
					);
					slots[src] = std::monostate();
					ids[src] = -1;
					if (!dropped) {
						slots[dst] = std::move(r);
						ids[dst] = id;
					}
					nontrivial = true;
				}
				break;
			case 5: // give to an owner which knows only the destructable
				std::visit(
					[&](auto& s) {
						using st = elem_t<decltype(s)>;
						if constexpr (std::is_same_v<st, uc>) {
							g.say([&] {
								return pbt::cat("u", src, " to destructable");
							});
							handles.emplace_back(ids[src], std::move(s).to_unique_ptr());
							ids[src] = -1;
							nontrivial = true;
						}
					},
					slots[src]
				);
				break;
			default:
				if (!handles.empty()) {
					g.say([] { return "delete through destructable"; });
					std::unique_ptr<utki::destructable> h = std::move(handles.back().second);
					handles.pop_back();
					utki::destructable* raw = h.release();
					delete raw;
				}
				break;
		}
		// state
		std::vector<bool> owned(full.size(), false);
		for (auto i : ids) {
			if (i >= 0) {
				CHECK(!owned[size_t(i)], "two owners in the model");
				owned[size_t(i)] = true;
			}
		}
		for (auto& h : handles) {
			owned[size_t(h.first)] = true;
		}
		for (size_t i = 0; i != full.size(); ++i) {
			CHECK_EQ(uregistry.alive[i], owned[i] ? full[i] : 0, " state of object ", i);
		}
		for (size_t i = 0; i != slots.size(); ++i) {
			if (ids[i] < 0) {
				continue;
			}
			std::visit(
				[&](auto& s) {
					using st = elem_t<decltype(s)>;
					if constexpr (!std::is_void_v<st>) {
						CHECK_EQ(s.get().id, ids[i], " object of unique_ref ", i);
						st& conv = s;
						CHECK(&conv == &s.get(), "conversion");
						int value = values[size_t(ids[i])];
						CHECK_EQ(s.get().value, value, " value");
						if constexpr (std::is_same_v<std::remove_const_t<st>, ubase>) {
							const auto& cs = s;
							for (int pv = 0; pv != 3; ++pv) {
								uregistry.alive.push_back(0);
								ubase p(int(full.size()), pv);
								CHECK_EQ(cs == p, value == pv, " equality with value ", pv);
								CHECK_EQ(cs < p, value < pv, " less than value ", pv);
								uref<st> other(std::make_unique<ubase>(int(full.size()), pv));
								CHECK_EQ(cs == other, value == pv, " equality with reference to value ", pv);
							}
						}
					}
				},
				slots[i]
			);
			while (uregistry.alive.size() > full.size()) {
				uregistry.alive.pop_back();
			}
		}
	}
	slots.clear();
	handles.clear();
	for (size_t i = 0; i != full.size(); ++i) {
		CHECK_EQ(uregistry.alive[i], 0, " object ", i, " at the end");
	}
	if (nontrivial) {
		g.nontrivial();
	}
	CHECK((!std::is_copy_constructible_v<uref<ubase>> && !std::is_copy_assignable_v<uref<ubase>>), "static");
	CHECK((!std::is_default_constructible_v<uref<ubase>> && !std::is_default_constructible_v<sref<base>>), "static");
}

namespace {
// tells by which kind of reference each argument came
struct forwarded {
	std::string kinds;
	std::string values;

	static char kind(std::string&)
	{
		return 'l';
	}

	static char kind(const std::string&)
	{
		return 'c';
	}

	static char kind(std::string&&)
	{
		return 'r';
	}

	template <class A, class B>
	forwarded(A&& a, B&& b) :
		kinds{kind(std::forward<A>(a)), kind(std::forward<B>(b))}
	{
		std::string own_a = std::forward<A>(a);
		std::string own_b = std::forward<B>(b);
		values = own_a + "+" + own_b;
	}
};
} // namespace

// Arguments for making an object reach its constructor as they are: only what is given up by the caller is taken.
PROPERTY("arguments", 1)
{
	std::string a = g.text(40, "abc");
	std::string b = g.text(40, "def");
	const std::string keep_a = a;
	const std::string keep_b = b;
	auto how = g.choice(5);
	bool unique = g.boolean();
	g.say([&] {
		return pbt::cat(unique ? "make_unique" : "make_shared", " with arguments of kind ", how, ": ", a, ", ", b);
	});
	if (a.size() > 20 || b.size() > 20) {
		g.nontrivial();
	}
	auto make = [&](auto&&... args) -> std::pair<std::string, std::string> {
		if (unique) {
			auto u = utki::make_unique<forwarded>(std::forward<decltype(args)>(args)...);
			return {u.get().kinds, u.get().values};
		}
		auto s = utki::make_shared<forwarded>(std::forward<decltype(args)>(args)...);
		return {s.get().kinds, s.get().values};
	};
	std::pair<std::string, std::string> got;
	const char* kinds = "";
	bool lost_a = false;
	bool lost_b = false;
	switch (how) {
		case 0:
			got = make(a, b);
			kinds = "ll";
			break;
		case 1:
			got = make(std::as_const(a), b);
			kinds = "cl";
			break;
		case 2:
			got = make(std::move(a), b);
			kinds = "rl";
			lost_a = true;
			break;
		case 3:
			got = make(a, std::move(b));
			kinds = "lr";
			lost_b = true;
			break;
		case 4:
			got = make(std::move(a), std::as_const(b));
			kinds = "rc";
			lost_a = true;
			break;
		default:
			got = make(std::string(keep_a), std::move(b));
			kinds = "rr";
			lost_b = true;
			break;
	}
	CHECK_EQ(got.first, kinds, " kinds of arguments");
	CHECK_EQ(got.second, keep_a + "+" + keep_b, " values");
	CHECK(lost_a || a == keep_a, "first argument changed to ", a);
	CHECK(lost_b || b == keep_b, "second argument changed to ", b);
}
