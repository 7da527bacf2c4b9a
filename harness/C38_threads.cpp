// C38: several threads use the library at once
#include "pbt.hpp"

#include <atomic>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <thread>
#include <variant>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <utki/base64.hpp>
#include <utki/debug.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/linq.hpp>
#include <utki/log.hpp>
#include <utki/math.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/sort.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/time.hpp>
#include <utki/tree.hpp>
#include <utki/type_traits.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/util.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>
#include <utki/version.hpp>
#include <utki/views.hpp>

const char* const pbt::rule = "two threads or more do three pieces of work or more each, or share an object";

namespace {
using rnd = pbt::gen::stream;

// What is left to do with an object made before, possibly by another thread; the result tells all about it.
using rest = std::function<std::string()>;

template <class... T>
std::string str(const T&... t)
{
	return pbt::cat(t...);
}

std::string some_text(rnd& r, size_t max, std::string_view alphabet)
{
	std::string s;
	for (auto n = r.below(max + 1); n != 0; --n) {
		s.push_back(alphabet[r.below(alphabet.size())]);
	}
	return s;
}

std::string hex(const void* p, size_t n)
{
	std::string s;
	for (size_t i = 0; i != n; ++i) {
		auto b = static_cast<const uint8_t*>(p)[i];
		s.push_back("0123456789abcdef"[b >> 4]);
		s.push_back("0123456789abcdef"[b & 0xf]);
	}
	return s;
}

template <class C>
std::string list_of(C&& c)
{
	std::ostringstream s;
	s << "[";
	for (const auto& e : c) {
		s << e << '|';
	}
	s << "]";
	return s.str();
}

enum class day {
	mo,
	tu,
	we,
	th,
	fr,
	sa,
	su,
	enum_size
};

struct base {
	int id;
	std::atomic<int>* dead;

	base(int id, std::atomic<int>* dead) :
		id(id),
		dead(dead)
	{}

	base(const base&) = delete;
	base& operator=(const base&) = delete;

	virtual ~base()
	{
		if (this->dead) {
			++*this->dead;
		}
	}
};

struct derived : public base {
	std::string name;

	derived(int id, std::string name, std::atomic<int>* dead) :
		base(id, dead),
		name(std::move(name))
	{}
};

struct sharing : public utki::shared {
	int value;

	sharing(int v) :
		value(v)
	{}
};

using text_tree = utki::tree<std::string>;

void grow(rnd& r, text_tree::container_type& f, size_t n)
{
	auto t = utki::make_traversal(f);
	auto i = t.begin();
	for (size_t k = 0; k != n; ++k) {
		if (t.begin() == t.end()) {
			i = t.insert(t.begin(), text_tree(some_text(r, 3, "abcdef")));
			continue;
		}
		i = t.begin();
		for (auto steps = r.below(k + 1); steps != 0 && i != t.end(); --steps) {
			++i;
		}
		if (i == t.end()) {
			i = t.begin();
		}
		switch (r.below(6)) {
			case 0:
				t.insert(i, text_tree(some_text(r, 30, "xyz")));
				break;
			case 1:
				t.insert_after(i, text_tree(some_text(r, 3, "uvw")));
				break;
			case 2:
				t.erase(i);
				break;
			default:
				i->children.emplace_back(some_text(r, 4, "ghi"));
				break;
		}
	}
}

std::string show(const text_tree::container_type& f)
{
	std::string s;
	auto t = utki::make_traversal(f);
	for (auto i = t.cbegin(); i != t.cend(); ++i) {
		s += str(i->value, "@", list_of(i.index()), i.depth(), i.is_last_child() ? "l" : "m", ";");
	}
	for (auto i = t.crbegin(); i != t.crend(); ++i) {
		s += i->value;
	}
	return s;
}

struct record {
	int key;
	std::string text;

	friend std::ostream& operator<<(std::ostream& o, const record& r)
	{
		return o << r.key << r.text;
	}
};

struct plain_error {
	int a;
};

[[noreturn]] void throw_chain(rnd& r, size_t depth)
{
	try {
		if (depth == 0) {
			switch (r.below(3)) {
				case 0:
					throw std::runtime_error(some_text(r, 20, "the root of it"));
				case 1:
					throw std::bad_alloc();
				default:
					throw plain_error{3};
			}
		}
		throw_chain(r, depth - 1);
	} catch (...) {
		auto what = some_text(r, 40, "nested message");
		switch (r.below(3)) {
			case 0:
				std::throw_with_nested(std::logic_error(what));
			case 1:
				utki::throw_with_nested(std::invalid_argument(what));
			default:
				utki::throw_with_nested(std::runtime_error(what));
		}
	}
}

std::exception_ptr make_chain(rnd& r)
{
	try {
		throw_chain(r, r.below(4));
	} catch (...) {
		return std::current_exception();
	}
}

std::string describe(std::exception_ptr p)
{
	try {
		std::rethrow_exception(std::move(p));
	} catch (utki::exception& e) {
		return str(e.what(), "/", e.to_string("* "), "/", utki::to_string(static_cast<std::exception&>(e), "  "), "/",
			utki::current_exception_to_string());
	} catch (std::exception& e) {
		return str(e.what(), "/", utki::to_string(e, "- "), "/", utki::current_exception_to_string());
	}
}

rest make_work(rnd r, unsigned kind)
{
	switch (kind) {
		case 0: // base64
			{
				auto s = some_text(r, 60, "ABCDwxyz0189+/");
				return [s] {
					auto d = utki::base64_decode(s);
					return hex(d.data(), d.size());
				};
			}
		case 1: // unicode
			{
				std::u32string u;
				for (auto n = r.below(40); n != 0; --n) {
					auto c = r.below(0x10ffff) + 1;
					u.push_back(char32_t(c >= 0xd800 && c < 0xe000 ? c - 0x800 : c) >> (r.below(3) * 6));
				}
				for (auto& c : u) {
					c = c ? c : U'a';
				}
				auto s = utki::to_utf8(u);
				return [u, s] {
					auto back = utki::to_utf32(s);
					auto one = u.empty() ? 'e' : utki::to_utf8(u.back())[0];
					return str(s, back == u, back == utki::to_utf32(s.c_str()), one);
				};
			}
		case 2: // byte order
			{
				auto buf = std::make_shared<std::vector<uint8_t>>(60);
				auto a = r.next();
				auto p = buf->data();
				p = utki::serialize64le(a, p);
				p = utki::serialize64be(a, p);
				p = utki::serialize32le(uint32_t(a), p);
				p = utki::serialize32be(uint32_t(a), p);
				p = utki::serialize16le(uint16_t(a), p);
				p = utki::serialize16be(uint16_t(a), p);
				p = utki::serialize_float_le(float(int32_t(a)), p);
				p = utki::serialize_float_be(float(int32_t(a)), p);
				auto d = std::make_shared<utki::deserializer>(utki::make_span(*buf));
				auto first = d->read_uint64_le();
				return [buf, d, a, first] {
					auto b = d->read_uint64_be();
					auto c = d->read_uint32_le();
					auto e = d->read_uint32_be();
					auto f = d->read_uint16_le();
					auto g = d->read_uint16_be();
					auto x = d->read_float_le();
					auto y = d->read_float_be();
					auto s = d->read_string(3);
					bool thrown = pbt::throws<std::invalid_argument>([&] { d->read_span(1000); });
					return str(first == a, b == a, c, " ", e, " ", f, " ", g, " ", x, " ", y, s.size(), thrown, d->size(),
						hex(buf->data(), buf->size()));
				};
			}
		case 3: // parser
			{
				auto text = std::make_shared<std::string>();
				for (auto n = r.below(12); n != 0; --n) {
					*text += str(some_text(r, 2, " \t\n,"), some_text(r, 20, "wordly"), " ", r.below(100000), ",",
						double(r.below(100000)) / 64, " ");
				}
				auto p = std::make_shared<utki::string_parser>(*text);
				std::string out(p->read_word());
				return [text, p, out] {
					std::string ret = out;
					try {
						while (!p->empty()) {
							p->skip_whitespaces_and_comma();
							ret += str("<", p->read_word(), ">", p->read_number<int>());
							p->skip_whitespaces_and_comma();
							ret += str("<", p->read_number<double>(), ">");
							ret += p->read_chars(1);
						}
					} catch (std::exception& e) {
						ret += str("stop at ", p->get_view().size());
					}
					return ret;
				};
			}
		case 4: // numbers
			{
				auto a = r.next();
				return [a] {
					std::string s;
					for (auto b :
						 {utki::integer_base::bin, utki::integer_base::oct, utki::integer_base::dec, utki::integer_base::hex})
					{
						auto t = utki::to_string(a, b);
						uint64_t back = 0;
						auto res = std::from_chars(t.data(), t.data() + t.size(), back, utki::to_int(b));
						s += str(t, back == a, res.ptr == t.data() + t.size());
						s += utki::to_string(int32_t(a), b) + utki::to_string(uint8_t(a), b);
					}
					for (auto t : {"1.5", "1e10", "-3.25e-2", "123456.789"}) {
						double d = 0;
						utki::from_chars(t, t + strlen(t), d);
						s += str(d, ' ');
					}
					return s;
				};
			}
		case 5: // text
			{
				auto s = some_text(r, 200, "lorem ipsum dolor  sit,amet\n");
				auto parts = utki::split(std::string_view(s));
				auto width = unsigned(r.below(20)) + 1;
				return [s, parts, width] {
					auto w = utki::word_wrap(s, width);
					auto c = utki::split(std::string_view(s), ',');
					return str(list_of(parts), list_of(w), list_of(c), utki::join(c, ','), utki::trim(std::string_view(s)),
						utki::cat(width, " - ", s), utki::make_indentation(width, 4), utki::starts_with(s, "lo"));
				};
			}
		case 6: // format
			{
				auto n = r.below(400);
				auto i = int(r.next());
				return [n, i] {
					std::string s(n, 'f');
					return utki::make_string("%d/%s/%x/%.3f", i, s.c_str(), unsigned(i), double(i) / 3);
				};
			}
		case 7: // tree
			{
				auto f = std::make_shared<text_tree::container_type>();
				grow(r, *f, r.below(25));
				auto s = show(*f);
				return [f, s, r] {
					auto copy = *f;
					auto more = r;
					grow(more, *f, 5);
					auto t = utki::make_traversal(*f);
					return str(s, show(copy) == s, show(*f), copy == *f, t.is_valid({0, 0}));
				};
			}
		case 8: // containers
			{
				std::map<int, std::string> m;
				std::vector<int> v;
				for (auto n = r.below(30); n != 0; --n) {
					auto k = int(r.below(1000));
					m[k] = some_text(r, 5, "mno") + std::to_string(k);
					v.push_back(k);
				}
				auto sorted = std::make_shared<std::vector<int>>(v);
				utki::sort(sorted->begin(), sorted->end());
				return [m, v, sorted] {
					std::vector<record> records;
					for (auto i : v) {
						records.push_back({i, std::to_string(i)});
					}
					auto q = utki::linq(records)
								 .where([](const auto& x) {
									 return x.key % 3 != 0;
								 })
								 .select([](auto x) {
									 return record{x.key / 2, x.text};
								 })
								 .order_by([](const auto& x) -> const auto& {
									 return x.text;
								 })
								 .get();
					auto grouped = utki::linq(records)
									   .group_by([](const auto& x) -> const auto& {
										   return x.key;
									   })
									   .get();
					std::string s = str(list_of(*sorted), list_of(q), grouped.size());
					for (auto& p : utki::flip_map(m)) {
						s += str(p.first, p.second);
					}
					for (auto p : utki::views::zip(v, *sorted)) {
						s += str(std::get<0>(p), ':', std::get<1>(p));
					}
					auto sp = utki::make_span(v);
					size_t h = 0;
					for (auto i = sp.rbegin(); i != sp.rend(); ++i) {
						h = h * 31 + size_t(*i);
					}
					return str(s, h, utki::contains(m, 5), utki::deep_equals(sp, utki::make_span(*sorted)),
						list_of(utki::views::reverse(v)));
				};
			}
		case 9: // enumerations
			{
				auto f = std::make_shared<utki::flags<day>>();
				utki::enum_array<std::string, day> a;
				for (auto d : utki::enum_iterable_v<day>) {
					f->set(d, r.below(2) != 0);
					a[d] = some_text(r, 20, "day");
				}
				return [f, a] {
					auto g = ~*f;
					std::string s = str(f->is_clear(), f->is_set(), (g & *f).is_clear(), (g | *f).is_set());
					for (auto i = a.begin(); i != a.end(); ++i) {
						s += str(*i, f->get(day(i - a.begin())));
					}
					return s;
				};
			}
		case 10: // signal
			{
				struct data {
					utki::signal<int, const std::string&> sig;
					std::vector<utki::signal<int, const std::string&>::connection> conns;
					std::string log;
				};

				auto d = std::make_shared<data>();
				for (auto n = r.below(6); n != 0; --n) {
					d->conns.push_back(d->sig.connect([p = d.get(), n](int i, const std::string& s) {
						p->log += str(n, ':', i, s, ' ');
					}));
				}
				d->sig.emit(int(r.below(100)), some_text(r, 30, "emit"));
				return [d] {
					d->sig.emit(7, "again");
					if (!d->conns.empty()) {
						d->sig.disconnect(d->conns.front());
						d->conns.erase(d->conns.begin());
					}
					d->sig.emit(8, "last");
					for (auto& c : d->conns) {
						d->sig.disconnect(c);
					}
					d->conns.clear();
					return str(d->log, d->sig.size());
				};
			}
		case 11: // references and guards
			{
				auto dead = std::make_shared<std::atomic<int>>(0);
				auto s = utki::make_shared<derived>(int(r.below(100)), some_text(r, 20, "name"), dead.get());
				auto u = std::make_shared<std::optional<utki::unique_ref<derived>>>(
					utki::make_unique<derived>(int(r.below(100)), "unique", dead.get())
				);
				auto own = utki::make_shared<sharing>(int(r.below(50)));
				auto log = std::make_shared<std::string>();
				auto guard = std::make_shared<utki::scope_exit>([log] {
					*log += "left";
				});
				return [dead, s, u, log, guard, own]() mutable {
					utki::shared_ref<base> b = s;
					std::weak_ptr<base> w = b;
					auto back = utki::dynamic_reference_cast<derived>(b);
					auto same = utki::make_shared_from(own.get());
					std::string ret = str(b.get().id, back.get().name, u->value().get().id, dead->load(), same.get().value);
					u->reset();
					ret += str(dead->load(), w.expired());
					guard.reset();
					return ret + *log;
				};
			}
		case 12: // exceptions
			{
				auto p = make_chain(r);
				return [p] {
					return describe(p);
				};
			}
		case 13: // types and versions
			{
				auto v = utki::version_triplet{{uint16_t(r.next()), uint16_t(r.next())}, uint32_t(r.next())};
				std::variant<int, std::string, double> var = some_text(r, 20, "variant");
				return [v, var] {
					std::stringstream ss;
					ss << v.duplet;
					auto s = std::visit(
						utki::overloaded{
							[](int) -> std::string {
								return "int";
							},
							[](const std::string& s) {
								return s;
							},
							[](double) -> std::string {
								return "double";
							}},
						var
					);
					return str(ss.str(), v.duplet.to_uint32_t(), s, utki::demangle(typeid(std::map<int, text_tree>)),
						utki::demangle(typeid(day)), utki::sign(-5), utki::pow3(7));
				};
			}
		default: // the rest of the world
			return [] {
				ASSERT(true)
				utki::assert(
					true,
					[](auto& o) {
						o << "not to be seen";
					},
					SL
				);
				auto a = utki::get_ticks_ms();
				auto b = utki::get_ticks_ms();
				return str(b - a < 100000, utki::is_terminal_cin(), utki::is_terminal_cout(), utki::is_terminal_cerr());
			};
	}
}

constexpr unsigned num_kinds = 15;

const char* const kinds[num_kinds] = {
	"base64",
	"unicode",
	"byte order",
	"parser",
	"numbers",
	"text",
	"format",
	"tree",
	"containers",
	"enumerations",
	"signal",
	"references",
	"exceptions",
	"types",
	"world"};

std::string guarded(const std::function<std::string()>& f)
{
	try {
		return f();
	} catch (std::exception& e) {
		return str("exception ", e.what());
	} catch (...) {
		return "exception";
	}
}

// starts all threads at once
class starter
{
	std::atomic<bool> go{false};
	std::vector<std::thread> threads;

public:
	template <class F>
	void add(F f)
	{
		this->threads.emplace_back([this, f]() mutable {
			// orders nothing, so that the only order between threads is that of making and joining them
			while (!this->go.load(std::memory_order_relaxed)) {
				std::this_thread::yield();
			}
			f();
		});
	}

	void run()
	{
		this->go.store(true, std::memory_order_relaxed);
		for (auto& t : this->threads) {
			t.join();
		}
		this->threads.clear();
	}

	~starter()
	{
		this->run();
	}
};

struct item {
	unsigned kind;
	uint64_t seed;
	unsigned pause;
	rest todo;
	std::string got;
	std::string expected;
};

std::string alone(const item& i)
{
	return guarded([&] {
		return make_work(rnd(i.seed), i.kind)();
	});
}
} // namespace

PROPERTY("separate objects", 6)
{
	auto num_threads = 2 + g.choice(3);
	std::vector<std::vector<item>> work(num_threads);
	// often all threads do the same kind of work, with different data
	bool same = g.boolean();
	auto kind = unsigned(g.choice(num_kinds - 1));
	bool hand_over = g.boolean();
	bool expect_first = g.boolean();
	size_t least = 100;
	for (auto& w : work) {
		auto n = 1 + g.choice(7);
		for (size_t i = 0; i != n; ++i) {
			item it;
			it.kind = same ? kind : unsigned(g.choice(num_kinds - 1));
			it.seed = g.choice(0xffffff);
			it.pause = unsigned(g.choice(6));
			w.push_back(it);
		}
		least = std::min(least, w.size());
	}
	if (least >= 3) {
		g.nontrivial();
	}
	g.say([&] {
		std::string s = str(num_threads, " threads", hand_over ? ", objects are handed over" : "");
		for (auto& w : work) {
			s += "; ";
			for (auto& i : w) {
				s += str(kinds[i.kind], " ", i.seed, ", ");
			}
		}
		return s;
	});
	if (same) {
		g.label(kinds[kind]);
	}
	if (hand_over) {
		g.label("handed over");
	}

	auto expect = [&] {
		for (auto& w : work) {
			for (auto& i : w) {
				i.expected = alone(i);
			}
		}
	};

	if (expect_first) {
		expect();
	}

	if (hand_over) {
		// made by one thread, finished by another
		{
			starter s;
			for (auto& w : work) {
				s.add([&w] {
					for (auto& i : w) {
						i.got = guarded([&] {
							i.todo = make_work(rnd(i.seed), i.kind);
							return "";
						});
					}
				});
			}
			s.run();
		}
		starter s;
		for (auto& w : work) {
			s.add([&w] {
				for (auto& i : w) {
					if (i.todo) {
						i.got = guarded(i.todo);
						i.todo = nullptr;
					}
					if (i.pause == 0) {
						std::this_thread::yield();
					}
				}
			});
		}
		s.run();
	} else {
		starter s;
		for (auto& w : work) {
			s.add([&w] {
				for (auto& i : w) {
					i.got = alone(i);
					if (i.pause == 0) {
						std::this_thread::yield();
					}
				}
			});
		}
		s.run();
	}

	if (!expect_first) {
		expect();
	}

	for (auto& w : work) {
		for (auto& i : w) {
			CHECK_EQ(i.got, i.expected, " ", kinds[i.kind], " with seed ", i.seed, " gives another result among other threads");
		}
	}
}

// objects which are only read
namespace {
const char* const shared_kinds[] = {
	"shared tree",
	"shared vector",
	"shared flags",
	"shared exception",
	"shared description",
	"shared text",
	"shared deserializer",
	"shared version",
	"shared signal",
	"shared reference"};
} // namespace

PROPERTY("shared object", 4)
{
	auto num_threads = 2 + g.choice(3);
	auto kind = unsigned(g.choice(9));
	auto r = g.many();
	auto rounds = 1 + g.choice(5);
	g.nontrivial();
	g.say([&] {
		return str(num_threads, " threads read object of kind ", kind, ", ", rounds, " times");
	});
	g.label(shared_kinds[kind]);

	std::function<std::string()> read;
	switch (kind) {
		case 0:
			{
				auto f = std::make_shared<const text_tree::container_type>([&] {
					text_tree::container_type f;
					grow(r, f, r.below(25));
					return f;
				}());
				read = [f] {
					auto copy = *f;
					return str(show(*f), copy == *f, utki::make_traversal(*f).is_valid({0}));
				};
				break;
			}
		case 1:
			{
				auto v = std::make_shared<const std::vector<int>>(r.below(40), int(r.below(100)));
				auto records = std::make_shared<const std::vector<record>>(v->size(), record{int(r.below(20)), "text"});
				read = [v, records] {
					auto s = utki::make_span(*v);
					auto q = utki::linq(*records)
								 .where([](const auto& x) {
									 return x.key > 10;
								 })
								 .select([](const auto& x) {
									 return std::to_string(x.key) + x.text;
								 })
								 .get();
					std::string ret;
					for (auto p : utki::views::zip(*v, *v)) {
						ret += str(std::get<0>(p));
					}
					return str(ret, list_of(s), list_of(q), utki::deep_less_than(s, s), utki::make_string(utki::make_span(ret)));
				};
				break;
			}
		case 2:
			{
				auto f = std::make_shared<utki::flags<day>>();
				auto a = std::make_shared<utki::enum_array<std::string, day>>();
				for (auto d : utki::enum_iterable_v<day>) {
					f->set(d, r.below(2) != 0);
					(*a)[d] = some_text(r, 30, "shared");
				}
				std::shared_ptr<const utki::flags<day>> cf = f;
				std::shared_ptr<const utki::enum_array<std::string, day>> ca = a;
				read = [cf, ca] {
					std::string s = str(cf->is_clear(), cf->is_set(), (~*cf).is_clear(), *cf == *cf);
					for (auto d : utki::enum_iterable_v<day>) {
						s += str(cf->get(d), (*ca)[d]);
					}
					return s;
				};
				break;
			}
		case 3: // exceptions are shared, e.g. by futures
			{
				auto p = make_chain(r);
				read = [p] {
					return describe(p);
				};
				break;
			}
		case 4:
			{
				auto p = make_chain(r);
				// the description stays where it is as long as the exception is there
				read = [p]() -> std::string {
					try {
						std::rethrow_exception(p);
					} catch (std::exception& e) {
						auto a = e.what();
						std::string s = a;
						auto b = e.what();
						return str(s == b, s == a, s);
					}
				};
				break;
			}
		case 5:
			{
				auto text = std::make_shared<const std::string>(some_text(r, 300, "shared text, words\n123 "));
				auto parser = std::make_shared<const utki::string_parser>(*text);
				read = [text, parser] {
					auto p = *parser;
					std::string s(p.read_word());
					p.skip_whitespaces_and_comma();
					s += p.read_word();
					return str(s, parser->get_view().size(), list_of(utki::split(*text)), list_of(utki::word_wrap(*text, 10)),
						utki::trim(*text), utki::to_utf32(*text).size());
				};
				break;
			}
		case 6:
			{
				auto data = std::make_shared<std::vector<uint8_t>>();
				for (auto n = r.below(50); n != 0; --n) {
					data->push_back(uint8_t(r.next()));
				}
				auto d = std::make_shared<const utki::deserializer>(utki::make_span(*data));
				read = [data, d] {
					auto c = *d;
					std::string s = str(d->size(), d->empty());
					try {
						s += str(c.read_uint32_be(), " ", c.read_uint16_le());
						s += hex(c.read_span(5).data(), 5);
					} catch (std::exception&) {
						s += "end";
					}
					return s;
				};
				break;
			}
		case 7:
			{
				auto v = std::make_shared<const utki::version_duplet>(
					utki::version_duplet{uint16_t(r.next()), uint16_t(r.next())}
				);
				read = [v] {
					std::stringstream ss;
					ss << *v;
					return str(ss.str(), v->to_uint32_t(), *v < *v, *v >= *v);
				};
				break;
			}
		case 8:
			{
				struct connected {
					utki::signal<int> sig;
					std::vector<utki::signal<int>::connection> conns;

					~connected()
					{
						for (auto& c : this->conns) {
							this->sig.disconnect(c);
						}
					}
				};

				auto c = std::make_shared<connected>();
				for (auto n = r.below(5); n != 0; --n) {
					c->conns.push_back(c->sig.connect([](int) {}));
				}
				read = [c = std::shared_ptr<const connected>(c)] {
					return str(c->sig.size(), c->sig.empty());
				};
				break;
			}
		default:
			{
				utki::shared_ref<const derived> ref = utki::make_shared<derived>(int(r.below(100)), "shared", nullptr);
				auto un = std::make_shared<const utki::unique_ref<derived>>(
					utki::make_unique<derived>(int(r.below(100)), "unique", nullptr)
				);
				read = [ref, un] {
					auto copy = ref;
					utki::shared_ref<const base> b = copy;
					std::weak_ptr<const base> w = b;
					return str(copy.get().name, b.get().id, w.expired(), &copy.get() == &ref.get(), (*un).get().name);
				};
				break;
			}
	}

	bool expect_first = g.boolean();
	std::string expected;
	if (expect_first) {
		expected = guarded(read);
	}
	std::vector<std::vector<std::string>> got(num_threads);
	{
		starter s;
		for (auto& v : got) {
			s.add([&v, &read, rounds] {
				for (size_t i = 0; i != rounds; ++i) {
					v.push_back(guarded(read));
				}
			});
		}
		s.run();
	}
	if (!expect_first) {
		expected = guarded(read);
	}
	for (auto& v : got) {
		for (auto& s : v) {
			CHECK_EQ(s, expected, " a reader sees something else");
		}
	}
}

// The last of the references, in whichever thread it is dropped, destroys the object, once.
PROPERTY("references", 2)
{
	auto num_threads = 2 + g.choice(3);
	auto rounds = 1 + g.choice(10);
	auto seeds = g.many();
	bool keep = g.boolean();
	g.nontrivial();
	g.say([&] {
		return str(num_threads, " threads share a reference, ", rounds, " rounds", keep ? ", it is kept to the end" : "");
	});
	std::atomic<int> dead{0};
	std::atomic<int> wrong{0};
	{
		auto object = std::make_shared<std::optional<utki::shared_ref<derived>>>(
			utki::make_shared<derived>(42, "some name which is long enough to be allocated", &dead)
		);
		starter s;
		for (size_t t = 0; t != num_threads; ++t) {
			s.add([ref = object->value(), rounds, r = rnd(seeds.next()), &dead, &wrong]() mutable {
				std::vector<utki::shared_ref<base>> kept;
				std::weak_ptr<derived> weak = ref;
				for (size_t i = 0; i != rounds; ++i) {
					switch (r.below(5)) {
						case 0:
							kept.emplace_back(ref);
							break;
						case 1:
							{
								utki::shared_ref<derived> c = ref;
								utki::shared_ref<const base> b = c;
								wrong += b.get().id != 42;
								c = ref;
								break;
							}
						case 2:
							if (!kept.empty()) {
								wrong += utki::dynamic_reference_cast<derived>(kept.back()).get().name.size() != 46;
								kept.pop_back();
							}
							break;
						case 3:
							if (auto l = weak.lock()) {
								utki::shared_ref<derived> c(l);
								wrong += c.get().id != 42;
							} else {
								++wrong;
							}
							break;
						default:
							{
								std::weak_ptr<derived> w = ref;
								wrong += w.expired();
								std::this_thread::yield();
								break;
							}
					}
					wrong += dead.load(std::memory_order_relaxed) != 0;
				}
			});
		}
		if (!keep) {
			object->reset();
		}
		s.run();
		CHECK_EQ(dead.load(), keep ? 0 : 1, " times destroyed after the threads are gone");
	}
	CHECK_EQ(wrong.load(), 0, " the object is not there as long as references are");
	CHECK_EQ(dead.load(), 1, " times destroyed");
}

namespace {
class service : public utki::singleton<service>
{
public:
	std::string name;

	service(std::string name) :
		name(std::move(name))
	{}
};
} // namespace

// A singleton which was made before may be asked for by all threads, and be made anew after they are gone.
PROPERTY("singleton", 1)
{
	auto num_threads = 2 + g.choice(3);
	auto rounds = 1 + g.choice(6);
	auto lives = 1 + g.choice(2);
	bool elsewhere = g.boolean();
	g.nontrivial();
	g.say([&] {
		return str(lives, " singletons, each made ", elsewhere ? "in a thread" : "here", ", seen by ", num_threads, " threads");
	});
	for (size_t l = 0; l != lives; ++l) {
		auto name = str("singleton number ", l, " of those which are made");
		std::unique_ptr<service> made;
		if (elsewhere) {
			std::thread([&] {
				made = std::make_unique<service>(name);
			}).join();
		} else {
			made = std::make_unique<service>(name);
		}
		std::atomic<int> wrong{0};
		{
			starter s;
			for (size_t t = 0; t != num_threads; ++t) {
				s.add([&, rounds] {
					for (size_t i = 0; i != rounds; ++i) {
						wrong += !service::is_created() || service::inst().name != name || &service::inst() != made.get();
						wrong += !pbt::throws<std::logic_error>([] {
							service second("second");
						});
					}
				});
			}
			s.run();
		}
		CHECK_EQ(wrong.load(), 0, " a thread sees something else than the singleton");
		if (elsewhere) {
			std::thread([&] {
				made.reset();
			}).join();
		} else {
			made.reset();
		}
		CHECK(!service::is_created(), "the singleton is gone");
	}
}

// Nothing of what threads log at the same time is lost, and each piece of text comes out as a whole.
PROPERTY("log", 1)
{
	auto num_threads = 2 + g.choice(2);
	std::vector<std::vector<std::string>> messages(num_threads);
	bool as_cat = g.boolean();
	for (size_t t = 0; t != num_threads; ++t) {
		auto n = 1 + g.choice(6);
		for (size_t i = 0; i != n; ++i) {
			messages[t].push_back(str("<", t, ".", i, ".", std::string(g.choice(60), char('a' + t)), ">"));
		}
	}
	g.nontrivial();
	g.say([&] {
		return str(num_threads, " threads log");
	});

	int fd = memfd_create("log", 0);
	CHECK(fd >= 0);
	std::cout.flush();
	fflush(stdout);
	int old = dup(1);
	dup2(fd, 1);
	{
		starter s;
		for (auto& m : messages) {
			s.add([&m, as_cat] {
				for (auto& t : m) {
					if (as_cat) {
						utki::logcat(t);
					} else {
						utki::log([&](auto& o) {
							o << t;
						});
					}
				}
			});
		}
		s.run();
	}
	std::cout.flush();
	fflush(stdout);
	dup2(old, 1);
	close(old);
	std::string got(size_t(lseek(fd, 0, SEEK_END)), '\0');
	CHECK(pread(fd, got.data(), got.size(), 0) == ssize_t(got.size()));
	close(fd);

	size_t total = 0;
	for (auto& m : messages) {
		size_t pos = 0;
		for (auto& t : m) {
			total += t.size();
			pos = got.find(t, pos);
			CHECK(pos != std::string::npos, "message ", t, " is not in its place among ", got);
		}
	}
	CHECK_EQ(got.size(), total, " characters were logged: ", got);
}
