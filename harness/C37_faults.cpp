// C37: memory which runs out, and operations of elements which throw
#include "pbt.hpp"

#include <deque>
#include <list>
#include <map>
#include <new>
#include <optional>
#include <stdexcept>

#include <utki/base64.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/exception.hpp>
#include <utki/linq.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>
#include <utki/version.hpp>

const char* const pbt::rule = "a fault was injected, that is, the operation allocates or copies something";

namespace {
struct boom {};

// What is done with this on counts as possible point of fault.
struct state {
	bool on = false;
	bool tracking = false;
	size_t points = 0; // points of fault passed
	size_t fail_at = ~size_t(0);
	bool injected = false;
	size_t live = 0; // blocks and elements made while tracking
};

thread_local state st;

bool fault()
{
	if (!st.on) {
		return false;
	}
	if (st.points++ == st.fail_at) {
		st.injected = true;
		return true;
	}
	return false;
}

struct alignas(16) header {
	size_t tracked;
};
} // namespace

void* operator new(size_t n)
{
	if (fault()) {
		throw std::bad_alloc();
	}
	auto p = static_cast<header*>(malloc(sizeof(header) + n));
	if (!p) {
		throw std::bad_alloc();
	}
	p->tracked = st.tracking ? 1 : 0;
	st.live += p->tracked;
	return p + 1;
}

void operator delete(void* p) noexcept
{
	if (p) {
		auto h = static_cast<header*>(p) - 1;
		st.live -= h->tracked;
		free(h);
	}
}

void operator delete(void* p, size_t) noexcept
{
	operator delete(p);
}

void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	try {
		return operator new(n);
	} catch (...) {
		return nullptr;
	}
}

void* operator new[](size_t n, const std::nothrow_t& t) noexcept
{
	return operator new(n, t);
}

void operator delete(void* p, const std::nothrow_t&) noexcept
{
	operator delete(p);
}

void operator delete[](void* p, const std::nothrow_t&) noexcept
{
	operator delete(p);
}

void* operator new[](size_t n)
{
	return operator new(n);
}

void operator delete[](void* p) noexcept
{
	operator delete(p);
}

void operator delete[](void* p, size_t) noexcept
{
	operator delete(p);
}

namespace {
// element whose copies may fail
struct item {
	uint32_t v = 0;
	bool tracked = st.tracking;

	item(uint32_t v = 0) :
		v(v)
	{
		st.live += tracked ? 1 : 0;
	}

	item(const item& i) :
		v(i.v)
	{
		if (fault()) {
			throw boom();
		}
		st.live += tracked ? 1 : 0;
	}

	item(item&& i) noexcept :
		v(std::exchange(i.v, 0xdeadbeef))
	{
		st.live += tracked ? 1 : 0;
	}

	item& operator=(const item& i)
	{
		if (fault()) {
			throw boom();
		}
		v = i.v;
		return *this;
	}

	item& operator=(item&& i) noexcept
	{
		if (this != &i) {
			v = std::exchange(i.v, 0xdeadbeef);
		}
		return *this;
	}

	~item()
	{
		st.live -= tracked ? 1 : 0;
	}

	bool operator==(const item& i) const
	{
		return v == i.v;
	}

	bool operator<(const item& i) const
	{
		return v < i.v;
	}
};

struct unarmed {
	bool on = st.on;
	bool tracking = st.tracking;

	unarmed()
	{
		st.on = false;
		st.tracking = false;
	}

	unarmed(const unarmed&) = delete;
	unarmed& operator=(const unarmed&) = delete;

	~unarmed()
	{
		st.on = on;
		st.tracking = tracking;
	}
};

struct arm {
	arm(size_t fail_at)
	{
		st.points = 0;
		st.fail_at = fail_at;
		st.injected = false;
		st.on = true;
		st.tracking = true;
	}

	arm(const arm&) = delete;
	arm& operator=(const arm&) = delete;

	~arm()
	{
		st.on = false;
		st.tracking = false;
	}
};

struct track {
	track()
	{
		st.tracking = true;
	}

	track(const track&) = delete;
	track& operator=(const track&) = delete;

	~track()
	{
		st.tracking = false;
	}
};

enum class after_failure {
	unchanged, // all or nothing
	either // done or not done
};

// make() gives a state, act(state) works on it and gives a result, see(state) tells what is in the state.
template <class Make, class Act, class See>
void with_faults(pbt::gen& g, const std::string& what, Make make, Act act, See see, after_failure guarantee = after_failure::unchanged)
{
	st = state();
	using made_type = std::invoke_result_t<Make&>;
	using result = std::decay_t<std::invoke_result_t<Act&, made_type&>>;
	// without faults
	std::string before;
	std::string after;
	std::string expected;
	size_t points = 0;
	{
		std::optional<made_type> s;
		std::optional<result> r;
		{
			track t;
			s.emplace(make());
		}
		before = see(*s);
		{
			arm a(~size_t(0));
			r.emplace(act(*s));
		}
		points = st.points;
		expected = pbt::str(*r);
		after = see(*s);
	}
	CHECK_EQ(st.live, size_t(0), " things left alive by ", what);
	g.say([&] {
		return pbt::cat(what, " of ", before, " gives ", expected, ", ", points, " points of fault");
	});
	if (points == 0) {
		return;
	}
	g.nontrivial();
	const size_t k = g.choice(points - 1);
	g.say([&] {
		return pbt::cat("fault at ", k);
	});
	{
		std::optional<made_type> s;
		{
			track t;
			s.emplace(make());
		}
		bool failed = false;
		{
			std::optional<result> r;
			const char* other = nullptr;
			try {
				arm a(k);
				r.emplace(act(*s));
			} catch (const std::bad_alloc&) {
				failed = true;
			} catch (const boom&) {
				failed = true;
			} catch (const std::exception& e) {
				other = "standard exception";
			} catch (...) {
				other = "unknown exception";
			}
			CHECK(!other, what, " with fault ", k, " of ", points, " ends with ", other);
			CHECK(st.injected, what, " does not repeat itself");
			if (!failed) {
				CHECK_EQ(pbt::str(*r), expected, " result of ", what, " in spite of fault ", k, " of ", points);
			}
		}
		auto now = see(*s);
		if (!failed) {
			CHECK_EQ(now, after, " after ", what, " in spite of fault ", k, " of ", points);
		} else {
			if (guarantee == after_failure::unchanged) {
				CHECK_EQ(now, before, " after ", what, " failed at ", k, " of ", points);
			} else {
				CHECK(now == before || now == after, " after ", what, " failed at ", k, " of ", points, " it is neither done nor not done: ", now);
			}
			if (now == before) {
				// and it can be done again
				std::optional<result> r;
				{
					track t;
					r.emplace(act(*s));
				}
				CHECK_EQ(pbt::str(*r), expected, " result of ", what, " done again");
				CHECK_EQ(see(*s), after, " after ", what, " done again");
			}
		}
	}
	CHECK_EQ(st.live, size_t(0), " things left alive by ", what, " failed at ", k, " of ", points);
}

// no state but the arguments
template <class Act>
void pure(pbt::gen& g, const std::string& what, Act act)
{
	with_faults(
		g,
		what,
		[] {
			return 0;
		},
		[&](int) {
			return act();
		},
		[](int) {
			return std::string();
		}
	);
}

std::string words(pbt::gen& g)
{
	std::string s;
	auto n = g.choice(12);
	for (size_t i = 0; i != n; ++i) {
		s += std::string(1 + g.choice(24), char('a' + g.choice(25)));
		s += g.pick<std::string>({" ", "  ", "\n", ","});
	}
	return s;
}

std::vector<std::string> list_of(pbt::gen& g)
{
	std::vector<std::string> v;
	auto n = g.choice(6);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(std::string(g.choice(40), char('a' + g.choice(25))));
	}
	return v;
}
} // namespace

PROPERTY("text", 3)
{
	auto t = words(g);
	auto v = list_of(g);
	switch (g.choice(11)) {
		case 0:
			pure(g, "make_string", [&] {
				return utki::make_string("%s and %d", t.c_str(), 13);
			});
			break;
		case 1:
			t = std::string(1000 + g.choice(60), 'x');
			pure(g, "make_string of a long text", [&] {
				return utki::make_string("%s", t.c_str());
			});
			break;
		case 2:
			pure(g, "split at character", [&] {
				return utki::split(std::string_view(t), ',');
			});
			break;
		case 3:
			pure(g, "split into words", [&] {
				return utki::split(std::string_view(t));
			});
			break;
		case 4: {
			auto w = unsigned(g.choice(30));
			pure(g, "word_wrap", [&] {
				return utki::word_wrap(t, w);
			});
			break;
		}
		case 5:
			pure(g, "join", [&] {
				return utki::join(v, '-');
			});
			break;
		case 6:
			pure(g, "cat", [&] {
				return utki::cat(t, 1, 'c', t, std::string_view("view"));
			});
			break;
		case 7: {
			auto n = g.integer<uint64_t>();
			auto b = g.pick<utki::integer_base>(
				{utki::integer_base::bin, utki::integer_base::oct, utki::integer_base::dec, utki::integer_base::hex}
			);
			pure(g, "to_string", [&] {
				return utki::to_string(n, b);
			});
			break;
		}
		case 8: {
			auto d = unsigned(g.choice(40));
			auto s = unsigned(g.choice(5));
			pure(g, "make_indentation", [&] {
				return utki::make_indentation(d, s);
			});
			break;
		}
		case 9: {
			auto b = g.bytes(100);
			pure(g, "make_string of bytes", [&] {
				return utki::make_string(b);
			});
			break;
		}
		case 10: {
			std::vector<std::u32string> w;
			for (auto& s : v) {
				w.emplace_back(s.begin(), s.end());
			}
			pure(g, "split of UTF-32", [&] {
				std::vector<std::string> r;
				auto p = utki::split(std::u32string_view(w.empty() ? std::u32string_view() : w[0]), U'a');
				unarmed z;
				return p.size();
			});
			break;
		}
		default: {
			utki::version_duplet d{uint16_t(g.choice(65535)), uint16_t(g.choice(65535))};
			pure(g, "version to string", [&] {
				return utki::cat(d, t);
			});
			break;
		}
	}
}

PROPERTY("conversions", 2)
{
	switch (g.choice(6)) {
		case 0: {
			auto n = g.choice(60);
			std::string s;
			for (size_t i = 0; i != n; ++i) {
				s += "QUJDREVGabc+/019"[g.choice(15)];
			}
			pure(g, "base64_decode", [&]() -> std::string {
				try {
					auto r = utki::base64_decode(s);
					unarmed p;
					return std::string(r.begin(), r.end());
				} catch (std::invalid_argument&) {
					unarmed p;
					return "invalid argument";
				}
			});
			break;
		}
		case 1: {
			std::u32string s;
			auto n = g.choice(40);
			for (size_t i = 0; i != n; ++i) {
				s += char32_t(1 + g.choice(0x10fffe));
			}
			pure(g, "to_utf8", [&] {
				return utki::to_utf8(s);
			});
			break;
		}
		case 2: {
			auto s = words(g);
			pure(g, "to_utf32", [&] {
				auto r = utki::to_utf32(s);
				unarmed p;
				return std::vector<uint32_t>(r.begin(), r.end());
			});
			break;
		}
		case 3: {
			std::vector<item> v;
			auto n = g.choice(20);
			for (size_t i = 0; i != n; ++i) {
				v.emplace_back(uint32_t(i));
			}
			pure(g, "make_vector", [&] {
				auto r = utki::make_vector(utki::make_span(v));
				unarmed p;
				std::vector<uint32_t> w;
				for (auto& i : r) {
					w.push_back(i.v);
				}
				return w;
			});
			break;
		}
		case 4:
		case 5: {
			std::map<uint32_t, item> m;
			auto n = g.choice(20);
			for (size_t i = 0; i != n; ++i) {
				m.emplace(uint32_t(i), uint32_t(i * 3));
			}
			pure(g, "flip_map", [&] {
				auto r = utki::flip_map(m);
				unarmed p;
				std::vector<uint32_t> w;
				for (auto& i : r) {
					w.push_back(i.first.v);
					w.push_back(i.second);
				}
				return w;
			});
			break;
		}
		default: {
			auto base = uint32_t(g.choice(1000));
			pure(g, "pairs of enumeration array", [&] {
				enum class e { a, b, c, enum_size };
				utki::enum_array<item, e> a{{item(base), item(base + 1), item(base + 2)}};
				auto b = a;
				return uint32_t(b[e::c].v);
			});
			break;
		}
	}
}

// reads which fail report so or run out of memory, and leave the position
PROPERTY("reading", 2)
{
	auto b = g.bytes(40);
	auto n = g.choice(60);
	auto kind = g.choice(5);
	auto seen = [](const auto& d) {
		return pbt::cat(d.size());
	};
	if (g.boolean()) {
		with_faults(
			g,
			pbt::cat("deserializer, read ", kind, " of ", n),
			[&] {
				return utki::deserializer(utki::make_span(b));
			},
			[&](utki::deserializer& d) -> std::string {
				try {
					switch (kind) {
						case 0:
							d.read_uint8();
							break;
						case 1:
							d.read_uint64_le();
							break;
						case 2:
							d.read_float_be();
							break;
						case 3:
							d.read_string(n);
							break;
						case 4:
							d.read_span(n);
							break;
						default:
							d.skip(n);
							break;
					}
				} catch (std::invalid_argument&) {
					return "invalid argument";
				}
				return "done";
			},
			seen
		);
	} else {
		std::string t = g.pick<std::string>({"", "  ", "abc", "-", " x", "12", " 77 1", "abc def", ",,"});
		with_faults(
			g,
			pbt::cat("string_parser, operation ", kind, " of ", n),
			[&] {
				return utki::string_parser(t);
			},
			[&](utki::string_parser& p) -> std::string {
				try {
					switch (kind) {
						case 0:
							p.read_char();
							break;
						case 1:
							p.peek_char(n);
							break;
						case 2:
							p.read_chars(n);
							break;
						default:
							p.read_number<int>();
							break;
					}
				} catch (std::invalid_argument&) {
					return "invalid argument";
				}
				return "done";
			},
			[](const utki::string_parser& p) {
				// whitespace at the beginning may be consumed
				auto v = p.get_view();
				while (!v.empty() && v.front() == ' ') {
					v.remove_prefix(1);
				}
				return std::string(v);
			}
		);
	}
}

namespace {
using tree = utki::tree<item>;

struct plan {
	std::vector<size_t> counts;
	size_t next = 0;
};

void fill(const plan& p, size_t& at, unsigned depth, uint32_t& number, tree::container_type& c)
{
	auto n = depth && at < p.counts.size() ? p.counts[at++] : 0;
	for (size_t i = 0; i != n; ++i) {
		auto v = ++number;
		tree::container_type children;
		fill(p, at, depth - 1, number, children);
		c.emplace_back(item(v), std::move(children));
	}
}

tree::container_type forest(const plan& p)
{
	tree::container_type c;
	size_t at = 0;
	uint32_t number = 0;
	fill(p, at, 3, number, c);
	return c;
}

std::string seen(const tree::container_type& c)
{
	std::string s = "(";
	for (auto& t : c) {
		s += std::to_string(t.value.v);
		s += seen(t.children);
	}
	return s + ")";
}

std::string seen_tree(const tree& t)
{
	return std::to_string(t.value.v) + seen(t.children);
}
} // namespace

PROPERTY("tree", 4)
{
	plan p;
	auto n = g.choice(12);
	for (size_t i = 0; i != n; ++i) {
		p.counts.push_back(g.choice(4));
	}
	auto q = p;
	if (!q.counts.empty()) {
		q.counts[0] = g.choice(4);
	}
	const auto other = forest(q);
	const auto all = forest(p);
	std::vector<std::vector<size_t>> paths;
	{
		auto tr = utki::make_traversal(all);
		for (auto i = tr.cbegin(); i != tr.cend(); ++i) {
			paths.push_back(i.index());
		}
	}
	auto made = [&] {
		return forest(p);
	};
	auto kind = g.choice(9);
	if (paths.empty()) {
		kind = 0;
	}
	const auto path = paths.empty() ? std::vector<size_t>() : paths[g.choice(paths.size() - 1)];
	switch (kind) {
		case 0:
			with_faults(
				g,
				"copy of forest",
				made,
				[](tree::container_type& c) {
					auto copy = c;
					unarmed z;
					return seen(copy);
				},
				seen
			);
			break;
		case 1: {
			const tree from(item(5), other);
			with_faults(
				g,
				"copy assignment of tree",
				made,
				[&](tree::container_type& c) {
					auto& t = c.front();
					t = from;
					return 0;
				},
				seen
			);
			break;
		}
		case 2:
			// a node is assigned to the root of its tree
			with_faults(
				g,
				"assignment of a part of the tree",
				made,
				[&](tree::container_type& c) {
					auto* t = &c.front();
					while (!t->children.empty()) {
						t = &t->children.back();
					}
					c.front() = *t;
					return 0;
				},
				seen
			);
			break;
		case 3:
		case 4:
		case 5: {
			const tree node(item(777), other);
			const bool after = g.boolean();
			with_faults(
				g,
				pbt::cat("insertion of copy ", after ? "after " : "before ", path),
				made,
				[&](tree::container_type& c) {
					auto tr = utki::make_traversal(c);
					auto i = tr.make_iterator(path);
					auto r = after ? tr.insert_after(i, node) : tr.insert(i, node);
					unarmed z;
					return r.index();
				},
				seen,
				after_failure::either
			);
			break;
		}
		case 6:
			with_faults(
				g,
				pbt::cat("insertion of moved ", path),
				made,
				[&](tree::container_type& c) {
					auto tr = utki::make_traversal(c);
					auto r = tr.insert(tr.make_iterator(path), tree(item(778)));
					unarmed z;
					return r.index();
				},
				seen,
				after_failure::either
			);
			break;
		case 7:
			with_faults(
				g,
				pbt::cat("removal of ", path),
				made,
				[&](tree::container_type& c) {
					auto tr = utki::make_traversal(c);
					auto r = tr.erase(tr.make_iterator(path));
					unarmed z;
					return r.index();
				},
				seen,
				after_failure::either
			);
			break;
		case 8:
			with_faults(
				g,
				"traversal",
				made,
				[&](tree::container_type& c) {
					uint32_t sum = 0;
					auto tr = utki::make_traversal(c);
					for (auto& t : tr) {
						sum = sum * 31 + t.value.v;
					}
					for (auto i = tr.rbegin(); i != tr.rend(); ++i) {
						sum = sum * 31 + i->value.v;
					}
					auto i = tr.make_iterator(path);
					auto x = i.index();
					unarmed z;
					return pbt::cat(sum, x, i.depth());
				},
				seen
			);
			break;
		default:
			with_faults(
				g,
				"tree of values and children",
				made,
				[&](tree::container_type& c) {
					tree t(item(3), {c.front(), tree(item(4)), c.back()});
					unarmed z;
					return seen_tree(t);
				},
				seen
			);
			break;
	}
}

namespace {
struct slots {
	std::vector<uint32_t> log;
	utki::signal<item, const std::string&> s;
	std::vector<utki::signal<item, const std::string&>::connection> c;

	slots() = default;
	slots(const slots&) = delete;
	slots& operator=(const slots&) = delete;

	~slots()
	{
		while (!c.empty()) {
			s.disconnect(c.back());
			c.pop_back();
		}
	}

	void add(uint32_t id)
	{
		// large enough for not being kept inside of std::function
		std::array<uint64_t, 6> ballast{{id, 1, 2, 3, 4, 5}};
		c.reserve(c.size() + 1);
		c.push_back(s.connect([this, id, ballast](item i, const std::string& t) {
			unarmed p;
			this->log.push_back(id * 1000 + i.v + uint32_t(t.size() + ballast[1]));
		}));
	}
};
} // namespace

PROPERTY("signal", 2)
{
	auto n = uint32_t(g.choice(5));
	auto made = [&] {
		auto s = std::make_unique<slots>();
		for (uint32_t i = 0; i != n; ++i) {
			s->add(i);
		}
		return s;
	};
	// who is connected
	auto seen = [](const std::unique_ptr<slots>& s) {
		auto old = s->log;
		s->log.clear();
		s->s.emit(item(7), "abc");
		auto r = pbt::cat(s->s.size(), s->s.empty(), s->c.size(), s->log);
		s->log = old;
		return r;
	};
	switch (g.choice(2)) {
		case 0:
			with_faults(
				g,
				"connect",
				made,
				[](std::unique_ptr<slots>& s) {
					s->add(50);
					return s->s.size();
				},
				seen
			);
			break;
		case 1: {
			auto k = g.choice(5);
			with_faults(
				g,
				"disconnect",
				made,
				[&](std::unique_ptr<slots>& s) {
					if (k < s->c.size()) {
						s->s.disconnect(s->c[k]);
						s->c.erase(s->c.begin() + std::ptrdiff_t(k));
					}
					return s->s.size();
				},
				seen
			);
			break;
		}
		default:
			with_faults(
				g,
				"emit",
				made,
				[](std::unique_ptr<slots>& s) {
					{
						unarmed p;
						s->log.clear();
					}
					s->s.emit(item(3), std::string(50, 'x'));
					return s->log.size();
				},
				seen
			);
			break;
	}
}

PROPERTY("query", 3)
{
	std::vector<uint32_t> v;
	auto n = g.choice(16);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(uint32_t(g.choice(30)));
	}
	auto made = [&] {
		std::vector<item> s;
		for (auto i : v) {
			s.emplace_back(i);
		}
		return s;
	};
	auto seen = [](const std::vector<item>& s) {
		std::string r;
		for (auto& i : s) {
			r += std::to_string(i.v) + " ";
		}
		return r;
	};
	auto kind = g.choice(4);
	with_faults(
		g,
		pbt::cat("query ", kind),
		made,
		[&](std::vector<item>& s) {
			auto all = [](const auto& c) {
				unarmed z;
				std::vector<uint32_t> r;
				for (auto& i : c) {
					r.push_back(i.v);
				}
				return r;
			};
			switch (kind) {
				case 0:
					return all(utki::linq(s).where([](const auto& i) { return i.v % 2 == 0; }).get());
				case 1:
					return all(utki::linq(s).select([](auto&& i) { return item(i.v + 1); }).get());
				case 2:
					return all(utki::linq(s).order_by([](const auto& i) -> const uint32_t& { return i.v; }).get());
				case 3: {
					auto r = utki::linq(s).group_by([](const auto& i) { return i.v % 3; }).get();
					unarmed z;
					std::vector<uint32_t> w;
					for (auto& p : r) {
						w.push_back(p.first);
						for (auto& i : p.second) {
							w.push_back(i.v);
						}
					}
					return w;
				}
				default:
					return all(utki::linq(s)
								   .where([](const auto& i) { return i.v > 3; })
								   .select([](auto&& i, size_t k) { return item(i.v + uint32_t(k)); })
								   .order_by([](const auto& i) -> const uint32_t& { return i.v; })
								   .get());
			}
		},
		seen
	);
}

namespace {
struct base : public utki::shared {
	item i;

	base(const item& i) :
		i(i)
	{}

	virtual ~base() = default;
};

struct derived : public base {
	std::string s = std::string(100, 's');

	using base::base;
};

struct plain_base {
	item i;

	plain_base(const item& i) :
		i(i)
	{}

	virtual ~plain_base() = default;
};

struct plain_derived : public plain_base {
	std::string s = std::string(100, 's');

	using plain_base::plain_base;
};

class single : public utki::singleton<single>
{
public:
	item i;
	std::string s;

	single(const item& i) :
		i(i),
		s(100, 'x')
	{}
};
} // namespace

PROPERTY("objects", 2)
{
	auto v = uint32_t(g.choice(1000));
	switch (g.choice(5)) {
		case 0:
			pure(g, "make_shared reference", [&] {
				auto r = utki::make_shared<derived>(item(v));
				utki::shared_ref<base> b = r;
				auto d = utki::dynamic_reference_cast<derived>(b);
				return d.get().i.v;
			});
			break;
		case 1:
			pure(g, "make_unique", [&] {
				auto r = utki::make_unique<plain_derived>(item(v));
				utki::unique_ref<plain_base> b = std::move(r);
				return b.get().i.v;
			});
			break;
		case 2:
			pure(g, "shared from this", [&] {
				auto r = utki::make_shared<derived>(item(v));
				auto s = utki::make_shared_from(r.get());
				return s.get().i.v;
			});
			break;
		case 3:
		case 4: {
			pure(g, "singleton", [&] {
				if (single::is_created()) {
					return uint32_t(~0u); // it is left by an attempt which failed
				}
				single s{item(v)};
				return single::inst().i.v;
			});
			CHECK(!single::is_created(), "a singleton is left behind");
			break;
		}
		default: {
			// the guard is either made, and acts once, or not made
			unsigned calls = 0;
			with_faults(
				g,
				"scope_exit",
				[&] {
					calls = 0;
					return 0;
				},
				[&](int) {
					calls = 0;
					{
						std::array<uint64_t, 6> ballast{{1, 2, 3, 4, 5, 6}};
						utki::scope_exit e([&calls, ballast] {
							calls += unsigned(ballast[0]);
						});
						utki::scope_exit f([&calls, ballast] {
							calls += unsigned(ballast[0]);
						});
						f.release();
					}
					return calls;
				},
				[](int) {
					return std::string();
				}
			);
			break;
		}
	}
}

namespace {
struct foreign {};

std::exception_ptr chain(const std::vector<std::string>& messages, bool own, bool foreign_last)
{
	if (messages.empty()) {
		if (foreign_last) {
			return std::make_exception_ptr(foreign());
		}
		return std::make_exception_ptr(std::out_of_range("the last"));
	}
	auto rest = messages;
	rest.erase(rest.begin());
	try {
		try {
			std::rethrow_exception(chain(rest, own, foreign_last));
		} catch (...) {
			if (own) {
				utki::throw_with_nested(std::runtime_error(messages[0]));
			}
			std::throw_with_nested(std::runtime_error(messages[0]));
		}
	} catch (...) {
		return std::current_exception();
	}
}
} // namespace

namespace {
// the text without the lines which describe std::bad_alloc, these are not among the generated exceptions
std::string without_bad_alloc(const std::string& s)
{
	const std::string line = "std::bad_alloc: std::bad_alloc";
	std::string r;
	for (size_t i = 0; i < s.size();) {
		auto e = s.find('\n', i);
		auto l = s.substr(i, e == std::string::npos ? e : e - i);
		auto first = l.find_first_not_of(" -");
		if (first == std::string::npos || l.substr(first) != line) {
			r += (r.empty() ? "" : "\n") + l;
		}
		i = e == std::string::npos ? s.size() : e + 1;
	}
	return r;
}
} // namespace

PROPERTY("descriptions", 3)
{
	auto messages = list_of(g);
	auto own = g.boolean();
	auto foreign_last = g.boolean();
	auto indentation = g.pick<std::string>({"", "- ", "                    "});
	auto what = pbt::cat("description of ", messages.size(), own ? " own" : " standard", foreign_last ? ", the last is foreign" : "");
	auto kind = g.choice(2);
	if (kind < 2 || !own || messages.empty()) {
		with_faults(
			g,
			pbt::cat(what, kind == 0 ? ", current exception" : ", exception"),
			[&] {
				return chain(messages, own, foreign_last);
			},
			[&](std::exception_ptr& e) -> std::string {
				std::string r;
				try {
					std::rethrow_exception(e);
				} catch (utki::exception& x) {
					r = kind == 0 ? utki::current_exception_to_string(indentation) : x.to_string(indentation);
				} catch (std::exception& x) {
					r = kind == 0 ? utki::current_exception_to_string(indentation) : utki::to_string(x, indentation);
				} catch (foreign&) {
					r = utki::current_exception_to_string(indentation);
				}
				unarmed z;
				// exceptions raised by the lack of memory may be described as well
				return st.injected ? without_bad_alloc(r) : r;
			},
			[](const std::exception_ptr&) {
				return std::string();
			}
		);
	} else {
		// what() does not throw, it tells that there is no memory, or gives the description
		std::string expected;
		size_t points = 0;
		std::string got;
		for (size_t round = 0; round != 2; ++round) {
			size_t k = ~size_t(0);
			if (round) {
				g.nontrivial();
				k = g.choice(points - 1);
				g.say([&] {
					return pbt::cat(what, ", what() with fault at ", k, " of ", points);
				});
			}
			auto e = chain(messages, own, foreign_last);
			try {
				std::rethrow_exception(e);
			} catch (std::exception& x) {
				const char* w;
				{
					arm a(k);
					w = x.what();
				}
				got = w;
			}
			if (round == 0) {
				points = st.points;
				expected = got;
				if (!points) {
					return;
				}
			}
		}
		CHECK(got == expected || without_bad_alloc(got) == expected || got == "std::bad_alloc", "what() is neither complete nor tells of the lack of memory: ", pbt::quote(got));
	}
}
