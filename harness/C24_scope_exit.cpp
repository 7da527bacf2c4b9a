// C24: scope guards
#include "pbt.hpp"

#include <memory>

#include <utki/utility.hpp>

const char* const pbt::rule = "at least two guards, and a release, a throw or a nested scope";

namespace {
struct boom {
	int id;
};

struct run_state {
	pbt::gen& g;
	std::vector<int> log; // what was run
	std::vector<int> expected; // what the model runs
	int next = 0;
	int guards = 0;
	bool special = false;
	bool model_throws = false;
	std::vector<std::weak_ptr<int>> owned;
};

struct model_guard {
	int id;
	bool armed;
};

using guard_ptr = std::unique_ptr<utki::scope_exit>;

std::function<void()> action(run_state& s, int id, bool throws, int kind)
{
	auto own = std::make_shared<int>(id);
	s.owned.push_back(own);
	return [&s, id, throws, own, kind] {
		s.log.push_back(*own);
		if (throws) {
			switch (kind) {
				case 0:
					throw std::runtime_error("action");
				case 1:
					throw boom{id};
				default:
					throw 42;
			}
		}
	};
}

// Guards on the stack: one frame per guard, so that order of construction is order of frames.
// n guards remain to be made in this scope; model has the guards of this scope so far.
void frames(run_state& s, size_t n, int depth, std::vector<model_guard>& model, std::vector<utki::scope_exit*>& live);

void inner_scope(run_state& s, int depth)
{
	std::vector<model_guard> model;
	std::vector<utki::scope_exit*> live;
	auto n = s.g.choice(3);
	frames(s, n, depth, model, live);
}

void frames(run_state& s, size_t n, int depth, std::vector<model_guard>& model, std::vector<utki::scope_exit*>& live)
{
	auto& g = s.g;
	// what happens between the guards
	auto events = g.choice(2);
	for (size_t e = 0; e != events; ++e) {
		switch (g.choice(5)) {
			case 0:
			case 1:
				break;
			case 2: // release one of the guards
				if (!live.empty()) {
					auto i = g.choice(live.size() - 1);
					g.say([&] {
						return pbt::cat("release guard ", model[i].id);
					});
					s.special = true;
					auto f = live[i]->release();
					CHECK_EQ(bool(f), model[i].armed, " release returns the action");
					if (model[i].armed && g.boolean()) {
						// the returned function is the action
						auto before = s.log.size();
						try {
							f();
						} catch (const pbt::failure&) {
							throw;
						} catch (...) {
						}
						CHECK(s.log.size() == before + 1 && s.log.back() == model[i].id, "released function is not the action");
						s.expected.push_back(model[i].id);
					}
					model[i].armed = false;
				}
				break;
			case 3: // nested scope, its exception is caught here
				if (depth < 3) {
					s.special = true;
					g.say([] { return "{"; });
					try {
						inner_scope(s, depth + 1);
						s.model_throws = false;
					} catch (const boom&) {
						CHECK(s.model_throws, "exception leaves a scope which does not throw");
						s.model_throws = false;
					}
					g.say([] { return "}"; });
				}
				break;
			case 4: // nested scope, its exception goes on
				if (depth < 3) {
					s.special = true;
					g.say([] { return "{"; });
					inner_scope(s, depth + 1);
					g.say([] { return "}"; });
				}
				break;
			default:
				if (g.chance(1, 3)) {
					s.special = true;
					g.say([] { return "throw"; });
					s.model_throws = true;
					throw boom{-1};
				}
				break;
		}
	}
	if (n == 0) {
		return;
	}
	int id = s.next++;
	++s.guards;
	bool throws = g.chance(1, 4);
	auto kind = int(g.choice(2));
	g.say([&] {
		return pbt::cat("guard ", id, throws ? " with throwing action" : "");
	});
	bool empty = g.chance(1, 12);
	model.push_back({id, !empty});
	auto index = model.size() - 1;
	// the model runs the action when the frame below is left
	struct on_leave {
		run_state& s;
		std::vector<model_guard>& m;
		size_t i;
		std::vector<utki::scope_exit*>& live;

		~on_leave()
		{
			if (m[i].armed) {
				s.expected.push_back(m[i].id);
			}
			live.resize(i);
		}
	} leave_frame{s, model, index, live};
	{
		utki::scope_exit guard(empty ? std::function<void()>() : action(s, id, throws, kind));
		live.push_back(&guard);
		auto before = s.log.size();
		CHECK(before == s.log.size(), "action is run by construction");
		frames(s, n - 1, depth, model, live);
	}
}
} // namespace

PROPERTY("nested_scopes", 4)
{
	run_state s{g};
	bool thrown = false;
	try {
		inner_scope(s, 0);
	} catch (const boom& b) {
		CHECK_EQ(b.id, -1, " exception of an action left its guard");
		thrown = true;
	} catch (const std::exception&) {
		CHECK(false, "exception of an action left its guard");
	} catch (int) {
		CHECK(false, "exception of an action left its guard");
	}
	CHECK_EQ(thrown, s.model_throws, " exception");
	CHECK_EQ(s.log, s.expected, " actions run");
	for (auto& w : s.owned) {
		CHECK(w.expired(), "action is not destroyed");
	}
	if (s.guards >= 2 && s.special) {
		g.nontrivial();
	}
}

namespace {
int early(int at, std::vector<int>& log, unsigned n)
{
	utki::scope_exit a([&] { log.push_back(1); });
	if (at == 0) {
		return 10;
	}
	utki::scope_exit b([&] { log.push_back(2); });
	if (at == 1) {
		return 11;
	}
	for (unsigned i = 0; i != n; ++i) {
		utki::scope_exit c([&log, i] { log.push_back(100 + int(i)); });
		if (at == 2 && i == 1) {
			continue;
		}
		if (at == 3 && i == 2) {
			break;
		}
		if (at == 4 && i == 1) {
			return 12;
		}
		if (at == 5 && i == 1) {
			throw boom{3};
		}
	}
	return 13;
}
} // namespace

PROPERTY("early_leave", 1)
{
	int at = int(g.choice(6));
	auto n = unsigned(g.choice(5));
	g.nontrivial();
	g.say([&] {
		return pbt::cat("leave at ", at, " loop of ", n);
	});
	std::vector<int> log;
	int r = 0;
	bool threw = pbt::throws<boom>([&] { r = early(at, log, n); });
	std::vector<int> e;
	int er = 13;
	bool et = false;
	if (at >= 2) {
		for (unsigned i = 0; i != n; ++i) {
			e.push_back(100 + int(i));
			if (at == 3 && i == 2) {
				break;
			}
			if (at == 4 && i == 1) {
				er = 12;
				break;
			}
			if (at == 5 && i == 1) {
				et = true;
				break;
			}
		}
	}
	if (at != 0) {
		e.push_back(2);
	}
	e.push_back(1);
	if (at == 0) {
		er = 10;
	}
	if (at == 1) {
		er = 11;
	}
	CHECK_EQ(threw, et);
	if (!et) {
		CHECK_EQ(r, er);
	}
	CHECK_EQ(log, e);
}

// guard on the heap: the action runs when the guard goes, not before, not again
PROPERTY("heap", 1)
{
	std::vector<int> log;
	std::vector<int> expected;
	std::vector<std::pair<int, guard_ptr>> live;
	std::vector<bool> armed;
	int next = 0;
	auto steps = 1 + g.size(20);
	int rel = 0;
	for (size_t s = 0; s != steps; ++s) {
		switch (g.choice(2)) {
			case 0:
				{
					int id = next++;
					live.emplace_back(id, new utki::scope_exit([&log, id] {
						log.push_back(id);
						if (id % 3 == 0) {
							throw std::string("oops");
						}
					}));
					armed.push_back(true);
				}
				break;
			case 1:
				if (!live.empty()) {
					auto i = g.choice(live.size() - 1);
					auto f = g.boolean() ? live[i].second->release() : live[i].second->reset();
					CHECK_EQ(bool(f), bool(armed[i]), " released function");
					armed[i] = false;
					++rel;
				}
				break;
			default:
				if (!live.empty()) {
					auto i = g.choice(live.size() - 1);
					if (armed[i]) {
						expected.push_back(live[i].first);
					}
					live.erase(live.begin() + std::ptrdiff_t(i));
					armed.erase(armed.begin() + std::ptrdiff_t(i));
				}
				break;
		}
		CHECK_EQ(log, expected);
	}
	if (next >= 2 && rel) {
		g.nontrivial();
	}
	CHECK((!std::is_copy_constructible_v<utki::scope_exit> && !std::is_copy_assignable_v<utki::scope_exit>), "static");
	g.say([&] {
		return pbt::cat(next, " guards, ", rel, " releases, actions run: ", log);
	});
}
