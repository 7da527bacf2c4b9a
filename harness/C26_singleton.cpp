// C26: singletons
#include "pbt.hpp"

#include <memory>
#include <optional>
#include <stdexcept>

#include <utki/singleton.hpp>

const char* const pbt::rule = "a second instance is attempted or a constructor fails, and instances of two types exist at some time";

namespace {
struct ctor_failed {};

std::vector<std::string>* trouble = nullptr; // what was wrong inside of constructors and destructors

template <typename T>
void inside(T* self, const char* where)
{
	if (!T::is_created()) {
		trouble->push_back(std::string("not created ") + where);
	} else if (&T::inst() != self) {
		trouble->push_back(std::string("instance is another object ") + where);
	}
}

class plain : public utki::singleton<plain>
{
public:
	int value;

	plain(int value, bool fail) :
		value(value)
	{
		inside(this, "in constructor");
		if (fail) {
			throw ctor_failed();
		}
	}

	~plain() override
	{
		inside(this, "in destructor");
	}
};

struct pad {
	virtual ~pad() = default;
	long p[4] = {1, 2, 3, 4};
};

class second_base : public pad, public utki::singleton<second_base>
{
public:
	int value;

	second_base(int value, bool fail) :
		value(value)
	{
		inside(this, "in constructor");
		if (fail) {
			throw ctor_failed();
		}
	}

	~second_base() override
	{
		inside(this, "in destructor");
	}
};

class intrusive : public utki::intrusive_singleton<intrusive, intrusive>
{
	friend class utki::intrusive_singleton<intrusive, intrusive>;
	static utki::intrusive_singleton<intrusive, intrusive>::instance_type instance;

public:
	int value;

	intrusive(int value, bool fail) :
		value(value)
	{
		inside(this, "in constructor");
		if (fail) {
			throw ctor_failed();
		}
	}

	~intrusive() override
	{
		inside(this, "in destructor");
	}
};

utki::intrusive_singleton<intrusive, intrusive>::instance_type intrusive::instance;

// interface singleton, with several implementations
class family : public utki::singleton<family>
{
public:
	int value;

	family(int value) :
		value(value)
	{}

	virtual int which() const = 0;
};

class family_1 : public family
{
public:
	family_1(int value, bool fail) :
		family(value)
	{
		if (fail) {
			throw ctor_failed();
		}
	}

	int which() const override
	{
		return 1;
	}
};

class family_2 : public pad, public family
{
	std::unique_ptr<int> own;

public:
	family_2(int value, bool fail) :
		family(value),
		own(std::make_unique<int>(value))
	{
		if (fail) {
			throw ctor_failed();
		}
	}

	int which() const override
	{
		return 2;
	}
};

// instance is owned by another class
class owned;

struct owner {
	static std::unique_ptr<owned> instance;
};

class owned : public pad, public utki::intrusive_singleton<owned, owner>
{
public:
	int value;

	owned(int value, bool fail) :
		value(value)
	{
		inside(this, "in constructor");
		if (fail) {
			throw ctor_failed();
		}
	}

	~owned() override
	{
		inside(this, "in destructor");
	}
};

std::unique_ptr<owned> owner::instance;

struct tracked {
	const char* name;
	bool created = false;
	int value = 0;
	const void* address = nullptr;
};

template <typename access, typename T>
struct slot_type {
	std::unique_ptr<T> heap;
	std::optional<T> in_place;
	bool holds = false;

	// returns 0 created, 1 second instance refused, 2 constructor failed, 3 something else
	int create(int value, bool fail, bool use_heap)
	{
		try {
			if (use_heap) {
				// do not touch the old one, which may be held by the same slot
				auto p = std::make_unique<T>(value, fail);
				heap = std::move(p);
			} else {
				if (in_place) {
					// optional destroys the old value first, so make the attempt elsewhere
					T attempt(value, fail);
					return 3;
				}
				in_place.emplace(value, fail);
			}
			holds = true;
			return 0;
		} catch (const std::logic_error&) {
			return 1;
		} catch (const ctor_failed&) {
			return 2;
		}
	}

	void destroy()
	{
		heap.reset();
		in_place.reset();
		holds = false;
	}

	const void* address() const
	{
		if (heap) {
			return static_cast<const access*>(heap.get());
		}
		if (in_place) {
			return static_cast<const access*>(&*in_place);
		}
		return nullptr;
	}
};
} // namespace

PROPERTY("history", 1)
{
	std::vector<std::string> troubles;
	trouble = &troubles;
	slot_type<plain, plain> s0;
	slot_type<second_base, second_base> s1;
	slot_type<intrusive, intrusive> s2;
	slot_type<family, family_1> s3;
	slot_type<family, family_2> s4;
	slot_type<owned, owned> s5;
	// index of group: family_1 and family_2 share an instance
	std::vector<tracked> model{{"plain"}, {"second_base"}, {"intrusive"}, {"family"}, {"owned"}};
	const std::vector<size_t> group{0, 1, 2, 3, 3, 4};
	const std::vector<const char*> names{"plain", "second_base", "intrusive", "family_1", "family_2", "owned"};

	auto with = [&](size_t i, auto f) {
		switch (i) {
			case 0:
				return f(s0);
			case 1:
				return f(s1);
			case 2:
				return f(s2);
			case 3:
				return f(s3);
			case 4:
				return f(s4);
			default:
				return f(s5);
		}
	};

	auto verify = [&] {
		auto one = [&](auto* tag, tracked& m) {
			using T = std::remove_pointer_t<decltype(tag)>;
			CHECK_EQ(T::is_created(), m.created, " is_created of ", m.name);
			if (m.created) {
				CHECK(&T::inst() == static_cast<const T*>(m.address), "instance of ", m.name);
				CHECK_EQ(T::inst().value, m.value, " value of ", m.name);
			}
		};
		one(static_cast<plain*>(nullptr), model[0]);
		one(static_cast<second_base*>(nullptr), model[1]);
		one(static_cast<intrusive*>(nullptr), model[2]);
		one(static_cast<family*>(nullptr), model[3]);
		one(static_cast<owned*>(nullptr), model[4]);
		CHECK(troubles.empty(), troubles);
	};

	bool refused = false;
	bool two = false;
	auto steps = 1 + g.size(20);
	for (size_t step = 0; step != steps; ++step) {
		auto i = size_t(g.choice(names.size() - 1));
		auto& m = model[group[i]];
		if (g.chance(2, 3)) {
			bool fail = g.chance(1, 4);
			bool heap = g.boolean();
			int value = int(g.choice(100));
			g.say([&] {
				return pbt::cat("create ", names[i], fail ? " with failing constructor" : "", heap ? " on heap" : " in place");
			});
			int r = with(i, [&](auto& s) {
				return s.create(value, fail, heap);
			});
			int expected = m.created ? 1 : fail ? 2 : 0;
			CHECK_EQ(r, expected, " outcome of creation (0 created, 1 logic error, 2 constructor failed)");
			if (r == 0) {
				m.created = true;
				m.value = value;
				with(i, [&](auto& s) {
					m.address = s.address();
				});
			} else {
				refused = true;
			}
		} else {
			bool held = with(i, [&](auto& s) {
				return s.holds;
			});
			if (held) {
				g.say([&] {
					return pbt::cat("destroy ", names[i]);
				});
				with(i, [&](auto& s) {
					s.destroy();
				});
				m.created = false;
			}
		}
		verify();
		int n = 0;
		for (auto& x : model) {
			n += x.created;
		}
		two = two || n >= 2;
	}
	for (size_t i = 0; i != names.size(); ++i) {
		with(i, [](auto& s) {
			s.destroy();
		});
	}
	for (auto& m : model) {
		m.created = false;
	}
	verify();
	if (refused && two) {
		g.nontrivial();
	}
}
