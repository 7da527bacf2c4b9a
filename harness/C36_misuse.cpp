// C36: in debug builds, use outside of the documented bounds is stopped by an assertion
#include "child.hpp"
#include "pbt.hpp"

#include <optional>

#include <utki/enum_array.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/span.hpp>
#include <utki/tree.hpp>
#include <utki/unique_ref.hpp>
#include <utki/views.hpp>

#ifndef DEBUG
#	error "debug build is expected"
#endif

const char* const pbt::rule = "use outside of the bounds";

namespace {
struct seen {
	uint64_t value = 0;
	int passed = 0;
};

// The use is within the bounds or not. Within: it goes on and gives the value. Outside: it is stopped by an assertion
// before anything comes out of it.
void judge(
	pbt::gen& g,
	bool within,
	const std::string& what,
	uint64_t expected,
	const std::function<uint64_t()>& use,
	const std::function<void()>& after = nullptr
)
{
	g.say([&] {
		return pbt::cat(what, within ? ", within bounds" : ", outside of bounds");
	});
	if (!within) {
		g.nontrivial();
	}
	child::shared_area<seen> s;
	auto r = child::run([&] {
		s->value = use();
		s->passed = 1;
		if (after) {
			after();
			s->passed = 2;
		}
	});
	if (within) {
		CHECK(r.survived(), what, " is within bounds, but does not go on: ", r.how(), " ", pbt::quote(r.err));
		CHECK_EQ(s->value, expected, " result of ", what);
		CHECK_EQ(r.err, std::string(), " standard error");
	} else {
		CHECK(s->passed == (after ? 1 : 0), what, " is not stopped");
		CHECK(r.aborted(), what, " is not stopped by an assertion: ", r.how(), " ", pbt::quote(r.err));
		CHECK(r.err.find("assertion failed") != std::string::npos, what, ": no assertion in ", pbt::quote(r.err));
	}
	CHECK_EQ(r.out, std::string(), " standard output");
}

// an index for a collection of n elements, outside of it if asked to
size_t index(pbt::gen& g, size_t n, bool within)
{
	if (within) {
		switch (g.choice(2)) {
			case 0:
				return 0;
			case 1:
				return n - 1;
			default:
				return size_t(g.choice(n - 1));
		}
	}
	switch (g.choice(5)) {
		case 0:
			return n;
		case 1:
			return n + 1 + size_t(g.choice(100));
		case 2:
			return size_t(0) - 1 - size_t(g.choice(5)); // -1
		case 3:
			return n + (size_t(1) << (8 + g.choice(55)));
		case 4:
			return std::max<size_t>(n, size_t(g.bits(64)));
		default:
			// multiplied by the size of element it comes out within the collection
			return (size_t(1) << (64 - 1 - g.choice(4))) + size_t(g.choice(n));
	}
}
} // namespace

#if CFG_CPP < 26
namespace {
template <class T>
void span_misuse(pbt::gen& g)
{
	auto n = size_t(g.choice(6));
	std::vector<std::remove_const_t<T>> v;
	for (size_t i = 0; i != n; ++i) {
		v.push_back(std::remove_const_t<T>(i + 1));
	}
	auto s = utki::span<T>(n ? v.data() : nullptr, n);
	const auto& cs = s;
	auto kind = g.choice(6);
	bool within = n != 0 && g.chance(1, 4);
	auto name = [&](const char* w) {
		return pbt::cat(w, " of span of ", n, " elements of ", sizeof(T), " bytes");
	};
	switch (kind) {
		case 0:
		case 1:
			{
				auto i = index(g, n, within);
				judge(g, within, pbt::cat(name(kind ? "constant operator[]" : "operator[]"), " with ", i), i + 1, [&] {
					return uint64_t(kind ? cs[i] : s[i]);
				});
				break;
			}
		case 2:
			judge(g, n != 0, name("front"), 1, [&] {
				return uint64_t(s.front());
			});
			break;
		case 3:
			judge(g, n != 0, name("back"), n, [&] {
				return uint64_t(s.back());
			});
			break;
		case 4:
			judge(g, n != 0, name("constant front or back"), 1 + n, [&] {
				return uint64_t(cs.front()) + uint64_t(cs.back());
			});
			break;
		case 5:
			{
				// only offset
				bool w = g.chance(1, 4);
				auto o = w ? size_t(g.choice(n)) : 1 + index(g, n, false);
				w = o <= n;
				judge(g, w, pbt::cat(name("subspan"), " from ", o), n - o, [&] {
					return uint64_t(s.subspan(o).size());
				});
				break;
			}
		default:
			{
				auto o = g.chance(3, 4) ? size_t(g.choice(n)) : 1 + index(g, n, false);
				size_t c;
				if (o <= n) {
					c = g.chance(1, 4) ? size_t(g.choice(n - o)) : n - o + 1 + index(g, n, false);
				} else {
					c = g.boolean() ? size_t(g.choice(3)) : size_t(0) - o + size_t(g.choice(n)); // overflows to within
				}
				if (c == size_t(-1)) {
					c = size_t(-2); // -1 means up to the end
				}
				bool w = o <= n && c <= n - o;
				judge(g, w, pbt::cat(name("subspan"), " from ", o, " of ", c), c, [&] {
					return uint64_t(s.subspan(o, c).size());
				});
				break;
			}
	}
}
} // namespace

PROPERTY("span", 4)
{
	switch (g.choice(3)) {
		case 0:
			span_misuse<uint8_t>(g);
			break;
		case 1:
			span_misuse<const uint16_t>(g);
			break;
		case 2:
			span_misuse<uint64_t>(g);
			break;
		default:
			span_misuse<const int>(g);
			break;
	}
}
#endif

namespace {
template <unsigned N>
struct the_enum {
	enum class type { first, enum_size = N };
	enum class small : uint16_t { first, enum_size = N };
};

template <class E>
void enum_misuse(pbt::gen& g)
{
	constexpr auto n = size_t(E::enum_size);
	using under = std::underlying_type_t<E>;
	bool within = g.chance(1, 4);
	auto i = index(g, n, within);
	if (!within) {
		// as the enumeration can hold it
		i = std::max(size_t(std::make_unsigned_t<under>(i)) & size_t(std::numeric_limits<under>::max()), n);
		if (std::is_signed_v<under> && g.chance(1, 4)) {
			// negative
			i = g.boolean() ? size_t(-1) - size_t(g.choice(n)) : size_t(std::numeric_limits<under>::min());
		}
	}
	auto e = E(under(i));
	switch (g.choice(4)) {
		case 0:
		case 1:
			{
				utki::enum_array<size_t, E> a{};
				for (size_t k = 0; k != n; ++k) {
					a[E(under(k))] = k + 7;
				}
				const auto& ca = a;
				bool c = g.boolean();
				judge(g, within, pbt::cat(c ? "constant " : "", "operator[] of enum_array of ", n, " with ", i), i + 7, [&] {
					return uint64_t(c ? ca[e] : a[e]);
				});
				break;
			}
		case 2:
			{
				utki::flags<E> f;
				f.set();
				judge(g, within, pbt::cat("get of ", n, " flags with ", i), 1, [&] {
					return uint64_t(f.get(e));
				});
				break;
			}
		case 3:
			{
				utki::flags<E> f;
				auto v = g.boolean();
				judge(g, within, pbt::cat("set of ", n, " flags with ", i), v, [&] {
					f.set(e, v);
					return uint64_t(f.get(e));
				});
				break;
			}
		default:
			{
				utki::flags<E> f;
				f.set();
				judge(g, within, pbt::cat("clear of ", n, " flags with ", i), 0, [&] {
					f.clear(e);
					return uint64_t(f.get(e));
				});
				break;
			}
	}
}
} // namespace

PROPERTY("enum_index", 3)
{
	switch (g.choice(9)) {
		case 0:
			enum_misuse<the_enum<1>::type>(g);
			break;
		case 1:
			enum_misuse<the_enum<3>::small>(g);
			break;
		case 2:
			enum_misuse<the_enum<32>::type>(g);
			break;
		case 3:
			enum_misuse<the_enum<63>::small>(g);
			break;
		case 4:
			enum_misuse<the_enum<64>::type>(g);
			break;
		case 5:
			enum_misuse<the_enum<65>::small>(g);
			break;
		case 6:
			enum_misuse<the_enum<100>::type>(g);
			break;
		case 7:
			enum_misuse<the_enum<300>::type>(g);
			break;
		case 8:
			enum_misuse<the_enum<8>::type>(g);
			break;
		default:
			enum_misuse<the_enum<5>::small>(g);
			break;
	}
}

namespace {
struct base {
	uint64_t v = 3;
	virtual ~base() = default;
};

struct other {
	uint64_t w = 4;
	virtual ~other() = default;
};

struct derived : public other, public base {};
} // namespace

PROPERTY("null_reference", 3)
{
	auto kind = g.choice(9);
	bool within = g.chance(1, 3);
	switch (kind) {
		case 0:
			judge(g, within, "shared_ref of shared_ptr", 3, [&] {
				auto p = within ? std::make_shared<base>() : nullptr;
				return uint64_t(utki::shared_ref<base>(p).to_shared_ptr()->v);
			});
			break;
		case 1:
			judge(g, within, "unique_ref of unique_ptr", 1, [&] {
				auto p = within ? std::make_unique<base>() : nullptr;
				utki::unique_ref<base> r(std::move(p));
				return uint64_t(1);
			});
			break;
		case 2:
		case 3:
		case 4:
			judge(g, within, pbt::cat("moved from shared_ref, access ", kind), 3, [&] {
				auto r = utki::make_shared<base>();
				std::optional<utki::shared_ref<base>> to;
				if (!within) {
					to.emplace(std::move(r));
				}
				switch (kind) {
					case 2:
						return uint64_t(r.get().v);
					case 3:
						return uint64_t(std::as_const(r).get().v);
					default:
						{
							const base& b = r;
							return uint64_t(b.v);
						}
				}
			});
			break;
		case 5:
		case 6:
			judge(g, within, pbt::cat("moved from unique_ref, access ", kind), 3, [&] {
				auto r = utki::make_unique<base>();
				std::optional<utki::unique_ref<base>> to;
				if (!within) {
					to.emplace(std::move(r));
				}
				if (kind == 5) {
					return uint64_t(r.get().v);
				}
				const base& b = r;
				return uint64_t(b.v);
			});
			break;
		case 7:
			judge(g, within, "conversion of moved from shared_ref", 1, [&] {
				auto r = utki::make_shared<derived>();
				std::optional<utki::shared_ref<derived>> to;
				if (!within) {
					to.emplace(std::move(r));
				}
				utki::shared_ref<base> b = r;
				return uint64_t(1);
			});
			break;
		case 8:
			judge(g, within, "conversion of moved from unique_ref", 1, [&] {
				auto r = utki::make_unique<derived>();
				std::optional<utki::unique_ref<derived>> to;
				if (!within) {
					to.emplace(std::move(r));
				}
				utki::unique_ref<base> b = std::move(r);
				return uint64_t(1);
			});
			break;
		default:
			judge(g, within, "unique_ref given away as unique_ptr", 3, [&] {
				auto r = utki::make_unique<base>();
				std::unique_ptr<base> p;
				if (!within) {
					p = std::move(r).to_unique_ptr();
				}
				return uint64_t(r.get().v);
			});
			break;
	}
}

namespace {
using tree = utki::tree<unsigned>;

tree::container_type make(pbt::gen& g, unsigned depth, unsigned& number)
{
	tree::container_type c;
	auto n = depth ? g.choice(3) : 0;
	for (size_t i = 0; i != n; ++i) {
		auto v = ++number;
		c.emplace_back(v, make(g, depth - 1, number));
	}
	return c;
}
} // namespace

PROPERTY("tree_path", 2)
{
	unsigned number = 0;
	auto c = make(g, 3, number);
	// a path, by the reference
	std::vector<size_t> path;
	bool within = true;
	uint64_t expected = 0;
	{
		const auto* level = &c;
		auto length = g.choice(4);
		for (size_t k = 0; k != length; ++k) {
			size_t i;
			if (level && !level->empty() && g.chance(4, 5)) {
				i = index(g, level->size(), true);
			} else {
				i = index(g, level ? level->size() : 0, false);
			}
			path.push_back(i);
			if (level && i < level->size()) {
				expected = (*level)[i].value;
				level = &(*level)[i].children;
			} else {
				level = nullptr;
				within = false;
			}
		}
		if (path.empty()) {
			within = false;
		}
	}
	utki::traversal<tree::container_type> t(c);
	utki::traversal<const tree::container_type> ct(c);
	const auto& kt = t;
	auto kind = g.choice(2);
	judge(g, within, pbt::cat("node ", path, " of ", number, " nodes"), expected, [&] {
		switch (kind) {
			case 0:
				return uint64_t(t[utki::make_span(path)].value);
			case 1:
				return uint64_t(kt[utki::make_span(path)].value);
			default:
				return uint64_t(t[path].value);
		}
	});
}

namespace {
class the_singleton : public utki::singleton<the_singleton>
{
public:
	uint64_t v = 11;
};

template <size_t K>
uint64_t first_after(std::vector<unsigned>& v)
{
	uint64_t sum = 0;
	for (auto& e : utki::skip_front<K>(v)) {
		sum += e;
	}
	return sum;
}
} // namespace

PROPERTY("others", 2)
{
	switch (g.choice(3)) {
		case 0:
			{
				// history of creation and destruction
				auto h = g.choice(4);
				bool there = h % 2 == 1;
				judge(g, there, pbt::cat("instance of singleton after ", h, " creations and destructions"), 11, [&] {
					std::unique_ptr<the_singleton> p;
					for (size_t i = 0; i != h; ++i) {
						if (p) {
							p.reset();
						} else {
							p = std::make_unique<the_singleton>();
						}
					}
					auto r = the_singleton::inst().v;
					(void)p.release();
					return r;
				});
				break;
			}
		case 1:
			{
				auto n = size_t(g.choice(6));
				std::vector<unsigned> v(n, 1);
				auto k = g.pick<size_t>({1, 2, 3, 4, 5, 6, 7, 1000});
				judge(g, k <= n, pbt::cat("skip_front of ", k, " out of ", n), n - k, [&] {
					switch (k) {
						case 1:
							return first_after<1>(v);
						case 2:
							return first_after<2>(v);
						case 3:
							return first_after<3>(v);
						case 4:
							return first_after<4>(v);
						case 5:
							return first_after<5>(v);
						case 6:
							return first_after<6>(v);
						case 7:
							return first_after<7>(v);
						default:
							return first_after<1000>(v);
					}
				});
				break;
			}
		case 2:
			{
				bool within = g.boolean();
				judge(g, within, "throw_with_nested", 1, [&] {
					try {
						if (within) {
							try {
								throw std::runtime_error("a");
							} catch (...) {
								utki::throw_with_nested(std::logic_error("b"));
							}
						} else {
							utki::throw_with_nested(std::logic_error("b"));
						}
					} catch (std::exception&) {
						return uint64_t(1);
					}
					return uint64_t(2);
				});
				break;
			}
		default:
			{
				// connections and disconnections; the signal must be empty when it is gone
				std::vector<size_t> ops;
				size_t connected = 0;
				for (auto k = g.choice(6); k != 0; --k) {
					auto o = g.choice(3);
					connected = o < 2 ? connected + 1 : connected ? connected - 1 : 0;
					ops.push_back(o);
				}
				std::optional<utki::signal<int>> s;
				judge(
					g,
					connected == 0,
					pbt::cat("end of signal with ", connected, " connections"),
					connected,
					[&] {
						s.emplace();
						std::vector<utki::signal<int>::connection> ids;
						for (auto o : ops) {
							if (o < 2) {
								ids.push_back(s->connect([](int) {}));
							} else if (!ids.empty()) {
								s->disconnect(ids.back());
								ids.pop_back();
							}
						}
						return uint64_t(ids.size());
					},
					[&] {
						s.reset();
					}
				);
				break;
			}
	}
}
