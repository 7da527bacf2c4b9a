// C23: signals against a model of connected callbacks
#include "pbt.hpp"

#include <algorithm>
#include <functional>
#include <list>
#include <set>

#include <memory>

#include <utki/signal.hpp>

const char* const pbt::rule = "at least one emission to at least two callbacks, and at least one disconnection";

namespace {
// long, so that it is on the heap and a moved-from string is empty
std::string text(pbt::gen& g)
{
	return g.text(4, "ab") + std::string(g.choice(1) ? 30 : 0, 't');
}

struct shape {
	virtual ~shape() = default;
	int n = 0;
};

// One argument type: how to make a value, what a callback saw, what a callback does to its own copy
struct call {
	int id;
	std::string seen;

	bool operator==(const call& c) const
	{
		return id == c.id && seen == c.seen;
	}
};

std::string show(const std::vector<call>& v)
{
	std::string s;
	for (auto& c : v) {
		s += " " + std::to_string(c.id) + "(" + c.seen + ")";
	}
	return s.empty() ? " nothing" : s;
}

// drives a signal with any arguments
template <class Sig>
struct driver {
	pbt::gen& g;
	Sig sig;

	struct conn {
		int id;
		typename Sig::connection c;
	};

	std::vector<conn> model;
	std::vector<call> log;
	int next = 0;
	bool emitted_many = false;
	bool disconnected = false;

	driver(pbt::gen& g) :
		g(g)
	{}

	~driver()
	{
		// signals are destroyed when nothing is connected
		for (auto& m : model) {
			sig.disconnect(m.c);
		}
	}

	void check_size(const char* what)
	{
		CHECK_EQ(sig.size(), model.size(), " size after ", what);
		CHECK_EQ(sig.empty(), model.empty(), " empty after ", what);
	}

	template <class Make>
	void connect(Make make)
	{
		int id = next++;
		g.say([&] {
			return pbt::cat("connect ", id);
		});
		model.push_back({id, sig.connect(make(id))});
		check_size("connect");
	}

	void disconnect()
	{
		if (model.empty()) {
			return;
		}
		auto i = g.choice(model.size() - 1);
		g.say([&] {
			return pbt::cat("disconnect ", model[i].id);
		});
		sig.disconnect(model[i].c);
		model.erase(model.begin() + std::ptrdiff_t(i));
		disconnected = true;
		check_size("disconnect");
	}

	template <class Emit, class Expected>
	void emit(Emit emit, Expected seen)
	{
		g.say([&] {
			return pbt::cat("emit to ", model.size());
		});
		log.clear();
		std::vector<call> expected;
		for (auto& m : model) {
			expected.push_back({m.id, seen(m.id)});
		}
		emit();
		CHECK(log == expected, "called:", show(log), ", expected:", show(expected));
		if (model.size() >= 2) {
			emitted_many = true;
		}
		check_size("emit");
	}

	void done()
	{
		if (emitted_many && disconnected) {
			g.nontrivial();
		}
	}
};

template <class Sig, class Make, class Emit>
void history(pbt::gen& g, driver<Sig>& d, Make make, Emit emit)
{
	if (g.chance(1, 150)) {
		// many callbacks
		auto n = g.choice(600);
		for (size_t i = 0; i != n; ++i) {
			d.connect(make);
		}
	}
	auto steps = 2 + g.size(24);
	for (size_t s = 0; s != steps; ++s) {
		switch (g.weighted({4, 2, 3})) {
			case 0:
				d.connect(make);
				break;
			case 1:
				d.disconnect();
				break;
			default:
				emit();
				break;
		}
	}
	d.done();
}
} // namespace

// Connections which hold no function, or the same function: disconnecting one of them leaves the others.
PROPERTY("connections", 1)
{
	using sig = utki::signal<int>;
	sig s;
	struct conn {
		int kind;
		sig::connection c;
	};
	std::vector<conn> model;
	int called[3] = {};
	std::function<void(int)> same = [&](int) {
		++called[1];
	};
	auto clean = [&] {
		for (auto& m : model) {
			s.disconnect(m.c);
		}
		model.clear();
	};
	bool emitted = false;
	bool disconnected = false;
	try {
		auto steps = 2 + g.size(20);
		bool empties = g.boolean();
		for (size_t st = 0; st != steps; ++st) {
			switch (g.weighted({4, 2, 2})) {
				case 0:
					{
						int kind = int(g.choice(empties ? 2 : 1));
						g.say([&] {
							return pbt::cat("connect ", kind == 0 ? "a function" : kind == 1 ? "the same function" : "an empty function");
						});
						switch (kind) {
							case 0:
								model.push_back({kind, s.connect([&](int) { ++called[0]; })});
								break;
							case 1:
								model.push_back({kind, s.connect(same)});
								break;
							default:
								model.push_back({kind, s.connect(nullptr)});
								break;
						}
					}
					break;
				case 1:
					if (!model.empty()) {
						auto i = g.choice(model.size() - 1);
						g.say([&] {
							return pbt::cat("disconnect ", i);
						});
						s.disconnect(model[i].c);
						model.erase(model.begin() + std::ptrdiff_t(i));
						disconnected = true;
					}
					break;
				default:
					{
						int expected[3] = {};
						for (auto& m : model) {
							++expected[m.kind];
						}
						if (expected[2] != 0) {
							// an empty function cannot be called
							break;
						}
						g.say([&] {
							return pbt::cat("emit to ", model.size());
						});
						called[0] = called[1] = 0;
						s.emit(1);
						CHECK_EQ(called[0], expected[0], " calls of function");
						CHECK_EQ(called[1], expected[1], " calls of the same function");
						emitted = emitted || model.size() >= 2;
					}
					break;
			}
			CHECK_EQ(s.size(), model.size(), " size");
			CHECK_EQ(s.empty(), model.empty(), " empty");
		}
	} catch (...) {
		clean();
		throw;
	}
	clean();
	if (emitted && disconnected) {
		g.nontrivial();
	}
}

PROPERTY("no_arguments", 1)
{
	using sig = utki::signal<>;
	driver<sig> d(g);
	history(
		g,
		d,
		[&](int id) {
			return [&d, id] {
				d.log.push_back({id, ""});
			};
		},
		[&] {
			d.emit([&] { d.sig.emit(); }, [](int) { return std::string(); });
		}
	);
}

// callbacks which consume their argument, by value
PROPERTY("by_value", 3)
{
	using sig = utki::signal<std::string, int, std::vector<int>>;
	driver<sig> d(g);
	auto seen = [](const std::string& s, int n, const std::vector<int>& v) {
		return s + "," + std::to_string(n) + "," + pbt::str(v);
	};
	history(
		g,
		d,
		[&](int id) -> sig::callback_type {
			switch (g.choice(3)) {
				case 0:
					return [&d, id, seen](std::string s, int n, std::vector<int> v) {
						d.log.push_back({id, seen(s, n, v)});
						// consume
						std::string t = std::move(s);
						std::vector<int> w = std::move(v);
						t += "x";
						w.clear();
					};
				case 1:
					return [&d, id, seen](const std::string& s, int n, const std::vector<int>& v) {
						d.log.push_back({id, seen(s, n, v)});
					};
				case 2:
					return [&d, id, seen](std::string&& s, int n, std::vector<int>&& v) {
						d.log.push_back({id, seen(s, n, v)});
						std::string t = std::move(s);
						s = "garbage";
						v.push_back(99);
					};
				default:
					// only part of arguments is looked at
					return [&d, id, seen](std::string s, int n, auto&& v) {
						d.log.push_back({id, seen(s, n, v)});
						s.clear();
						n = -1;
					};
			}
		},
		[&] {
			auto s = text(g);
			auto n = int(g.choice(100));
			std::vector<int> v(g.choice(5), int(g.choice(9)));
			auto e = seen(s, n, v);
			auto expected = [&](int) {
				return e;
			};
			if (g.boolean()) {
				d.emit([&] { d.sig.emit(s, n, v); }, expected);
				CHECK(seen(s, n, v) == e, "emitted values changed");
			} else {
				d.emit([&] { d.sig.emit(std::move(s), n, std::move(v)); }, expected);
			}
		}
	);
}

PROPERTY("by_constant_reference", 2)
{
	using sig = utki::signal<const std::string&, const int&>;
	driver<sig> d(g);
	const std::string* addr = nullptr;
	history(
		g,
		d,
		[&](int id) -> sig::callback_type {
			return [&d, &addr, id](const std::string& s, const int& n) {
				d.log.push_back({id, s + "," + std::to_string(n) + (&s == addr ? "" : " other object")});
			};
		},
		[&] {
			auto s = text(g);
			auto n = int(g.choice(100));
			addr = &s;
			auto e = s + "," + std::to_string(n);
			d.emit([&] { d.sig.emit(s, n); }, [&](int) { return e; });
			CHECK(s + "," + std::to_string(n) == e, "emitted values changed");
		}
	);
}

// all callbacks work on the same object
PROPERTY("by_reference", 2)
{
	using sig = utki::signal<std::vector<int>&, shape&>;
	driver<sig> d(g);
	history(
		g,
		d,
		[&](int id) -> sig::callback_type {
			return [&d, id](std::vector<int>& v, shape& s) {
				v.push_back(id);
				++s.n;
				d.log.push_back({id, ""});
			};
		},
		[&] {
			std::vector<int> v;
			shape s;
			d.emit([&] { d.sig.emit(v, s); }, [](int) { return std::string(); });
			std::vector<int> ids;
			for (auto& m : d.model) {
				ids.push_back(m.id);
			}
			CHECK_EQ(v, ids, " object worked on by the callbacks");
			CHECK_EQ(s.n, int(ids.size()));
		}
	);
}

PROPERTY("shared_pointer", 1)
{
	using sig = utki::signal<std::shared_ptr<int>, std::string>;
	driver<sig> d(g);
	std::vector<std::shared_ptr<int>> kept;
	history(
		g,
		d,
		[&](int id) -> sig::callback_type {
			bool keep = g.boolean();
			return [&d, &kept, id, keep](std::shared_ptr<int> p, std::string s) {
				d.log.push_back({id, (p ? std::to_string(*p) : "null") + s});
				if (keep) {
					kept.push_back(std::move(p));
				}
			};
		},
		[&] {
			auto p = std::make_shared<int>(int(g.choice(50)));
			auto s = text(g);
			auto e = std::to_string(*p) + s;
			std::weak_ptr<int> w = p;
			d.emit([&] { d.sig.emit(std::move(p), s); }, [&](int) { return e; });
			kept.clear();
			CHECK(w.expired(), "argument is kept by the signal");
		}
	);
}

// move-only argument: for one callback
PROPERTY("move_only", 1)
{
	utki::signal<std::unique_ptr<int>> sig;
	int n = int(g.choice(1000));
	int seen = -1;
	g.say([&] {
		return pbt::cat("emit move-only ", n);
	});
	sig.emit(std::make_unique<int>(n));
	auto c = sig.connect([&](std::unique_ptr<int> p) {
		seen = p ? *p : -2;
	});
	sig.emit(std::make_unique<int>(n));
	CHECK_EQ(seen, n);
	CHECK_EQ(sig.size(), size_t(1));
	sig.disconnect(c);
	CHECK(sig.empty(), "empty");
}

// emission from within a callback, throwing callbacks, callbacks owning objects, several signals
PROPERTY("nested", 2)
{
	using sig_t = utki::signal<int, std::string>;
	sig_t sigs[2];
	struct conn {
		int id;
		sig_t::connection c;
		int forward_to; // signal which is emitted by the callback
		bool throws;
		std::shared_ptr<int> owned;
	};
	std::vector<conn> model[2];
	struct event {
		int sig;
		int id;
		int depth;
		std::string s;

		bool operator==(const event& e) const
		{
			return sig == e.sig && id == e.id && depth == e.depth && s == e.s;
		}
	};
	std::vector<event> log;
	struct boom {};
	int next = 0;
	bool many = false;
	bool dis = false;
	auto steps = 2 + g.size(16);
	auto cleanup = [&] {
		for (int k = 0; k != 2; ++k) {
			for (auto& m : model[k]) {
				sigs[k].disconnect(m.c);
			}
			model[k].clear();
		}
	};
	try {
		for (size_t st = 0; st != steps; ++st) {
			int k = int(g.choice(1));
			switch (g.weighted({4, 2, 3})) {
				case 0:
					{
						if (model[k].size() >= 4) {
							break;
						}
						conn c;
						c.id = next++;
						c.forward_to = g.chance(1, 3) ? int(g.choice(1)) : -1;
						c.throws = g.chance(1, 8);
						c.owned = std::make_shared<int>(c.id);
						c.c = sigs[k].connect([&log, &sigs, k, id = c.id, fw = c.forward_to, th = c.throws, owned = c.owned](
												  int depth,
												  std::string s
											  ) {
							log.push_back({k, id, depth, s});
							if (*owned != id) {
								log.push_back({-1, -1, -1, "owned object"});
							}
							if (th) {
								throw boom();
							}
							if (fw >= 0 && depth < 3) {
								sigs[fw].emit(depth + 1, std::move(s));
							}
						});
						g.say([&] {
							return pbt::cat("connect ", c.id, " to signal ", k, " emits ", c.forward_to, " throws ", c.throws);
						});
						model[k].push_back(std::move(c));
					}
					break;
				case 1:
					if (!model[k].empty()) {
						auto i = g.choice(model[k].size() - 1);
						auto owned = model[k][i].owned;
						g.say([&] {
							return pbt::cat("disconnect ", model[k][i].id);
						});
						sigs[k].disconnect(model[k][i].c);
						model[k].erase(model[k].begin() + std::ptrdiff_t(i));
						CHECK_EQ(owned.use_count(), 1, " disconnected callback is not destroyed");
						dis = true;
					}
					break;
				default:
					{
						auto s = text(g);
						g.say([&] {
							return pbt::cat("emit signal ", k);
						});
						log.clear();
						std::vector<event> expected;
						std::function<bool(int, int)> run = [&](int sg, int depth) {
							for (auto& m : model[sg]) {
								expected.push_back({sg, m.id, depth, s});
								if (m.throws) {
									return false;
								}
								if (m.forward_to >= 0 && depth < 3) {
									if (!run(m.forward_to, depth + 1)) {
										return false;
									}
								}
							}
							return true;
						};
						bool complete = run(k, 0);
						bool threw = pbt::throws<boom>([&] { sigs[k].emit(0, s); });
						CHECK_EQ(threw, !complete, " exception of callback");
						CHECK_EQ(log.size(), expected.size(), " calls");
						for (size_t i = 0; i != log.size(); ++i) {
							CHECK(log[i] == expected[i], "call ", i, " is signal ", log[i].sig, " callback ", log[i].id, " depth ",
								  log[i].depth, " with ", log[i].s, ", expected ", expected[i].sig, " ", expected[i].id, " ",
								  expected[i].depth, " ", expected[i].s);
						}
						many = many || model[k].size() >= 2;
					}
					break;
			}
			for (int i = 0; i != 2; ++i) {
				CHECK_EQ(sigs[i].size(), model[i].size(), " size of signal ", i);
			}
		}
	} catch (...) {
		cleanup();
		throw;
	}
	cleanup();
	if (many && dis) {
		g.nontrivial();
	}
}

// thousands of operations on one signal: connections, failed emissions, deep emissions
PROPERTY("long_history", 1)
{
	struct boom {};

	utki::signal<int, int> sig; // arguments are depth and number of callback which is to throw
	using connection = utki::signal<int, int>::connection;
	std::vector<std::pair<int, connection>> model;
	std::vector<int> log;
	int next = 0;
	auto steps = g.wide(14, 100);
	auto width = 1 + g.wide(12, 200);
	auto m = g.many();
	auto deep = g.choice(300);
	g.say([&] {
		return pbt::cat(steps, " steps, up to ", width, " callbacks, emissions up to ", deep, " deep");
	});
	auto cleanup = [&] {
		for (auto& c : model) {
			sig.disconnect(c.second);
		}
		model.clear();
	};
	size_t emissions = 0;
	size_t failed = 0;
	try {
		for (size_t s = 0; s != steps; ++s) {
			switch (m.below(s < width ? 6 : 12)) {
				default:
					if (model.size() < width) {
						auto id = next++;
						model.emplace_back(id, sig.connect([&log, &sig, id](int depth, int thrower) {
							log.push_back(id);
							if (thrower == id) {
								throw boom();
							}
							if (depth > 0 && thrower == -1 - id) {
								sig.emit(depth - 1, thrower);
							}
						}));
						break;
					}
					[[fallthrough]];
				case 0:
					if (!model.empty()) {
						auto i = m.below(model.size());
						sig.disconnect(model[i].second);
						model.erase(model.begin() + std::ptrdiff_t(i));
					}
					break;
				case 1:
				case 2:
					{
						// one of callbacks throws, or one more which is not there
						auto i = m.below(model.size() + 1);
						log.clear();
						auto threw = pbt::throws<boom>([&] { sig.emit(0, i == model.size() ? next : model[i].first); });
						CHECK_EQ(threw, i != model.size(), " exception of callback at step ", s);
						auto n = i == model.size() ? i : i + 1;
						CHECK_EQ(log.size(), n, " calls of ", model.size(), " callbacks at step ", s);
						for (size_t k = 0; k != n; ++k) {
							CHECK_EQ(log[k], model[k].first, " call ", k, " at step ", s);
						}
						++emissions;
						failed += threw ? 1 : 0;
					}
					break;
				case 3:
					if (!model.empty()) {
						// one of the callbacks emits again
						auto i = m.below(model.size());
						auto d = m.below(deep + 1);
						log.clear();
						if (model.size() * (d + 1) > 4000) {
							break;
						}
						sig.emit(int(d), -1 - model[i].first);
						std::vector<int> expected;
						for (size_t k = 0; k != d + 1; ++k) {
							for (size_t j = 0; j != (k == d ? model.size() : i + 1); ++j) {
								expected.push_back(model[j].first);
							}
						}
						for (size_t k = 0; k != d; ++k) {
							for (size_t j = i + 1; j != model.size(); ++j) {
								expected.push_back(model[j].first);
							}
						}
						CHECK(log == expected, "calls of nested emission at step ", s, ", ", log.size(), " of ", expected.size());
						++emissions;
					}
					break;
			}
			CHECK_EQ(sig.size(), model.size(), " size at step ", s);
			CHECK_EQ(sig.empty(), model.empty(), " empty at step ", s);
		}
	} catch (...) {
		cleanup();
		throw;
	}
	cleanup();
	if (emissions > 2 && failed != 0) {
		g.nontrivial();
	}
	g.label(failed > 100 ? "more than 100 failed emissions" : "less failed emissions");
}

// callbacks which connect others and disconnect others (never themselves) while the emission goes on
PROPERTY("changed_by_callback", 1)
{
	utki::signal<> sig;
	using connection = utki::signal<>::connection;

	struct conn {
		int id;
		connection c;
		int connects; // how many callbacks it connects when called
		std::vector<int> disconnects;
		bool done = false;
	};

	std::list<conn> model;
	std::vector<int> log;
	int next = 0;
	std::function<void(int, std::vector<int>)> add;
	std::set<int> fresh; // connected during the emission
	std::set<int> gone; // disconnected during the emission
	auto call = [&](int id) {
		log.push_back(id);
		auto i = std::find_if(model.begin(), model.end(), [&](auto& m) { return m.id == id; });
		if (i == model.end() || i->done) {
			return;
		}
		i->done = true;
		for (int k = 0; k != i->connects; ++k) {
			fresh.insert(next);
			add(0, {});
		}
		for (auto d : i->disconnects) {
			auto j = std::find_if(model.begin(), model.end(), [&](auto& m) { return m.id == d; });
			if (j != model.end() && j != i) {
				gone.insert(d);
				sig.disconnect(j->c);
				model.erase(j);
			}
		}
	};
	add = [&](int connects, std::vector<int> disconnects) {
		auto id = next++;
		auto c = sig.connect([&call, id] { call(id); });
		model.push_back({id, c, connects, std::move(disconnects)});
	};
	auto n = 1 + g.size(10);
	for (size_t i = 0; i != n; ++i) {
		std::vector<int> dis;
		for (auto k = g.chance(1, 3) ? 1 + g.choice(2) : 0; k != 0; --k) {
			dis.push_back(int(g.choice(n - 1)));
		}
		int con = g.chance(1, 3) ? 1 + int(g.choice(1)) : 0;
		g.say([&] {
			return pbt::cat("callback ", i, " connects ", con, " disconnects ", pbt::str(dis));
		});
		add(con, dis);
	}
	auto cleanup = [&] {
		for (auto& m : model) {
			sig.disconnect(m.c);
		}
		model.clear();
	};
	try {
		for (unsigned round = 0; round != 2; ++round) {
			std::vector<int> before;
			for (auto& m : model) {
				before.push_back(m.id);
			}
			log.clear();
			fresh.clear();
			gone.clear();
			sig.emit();
			// those which stayed are called once and in order
			auto touched = [&](int id) {
				return fresh.count(id) != 0 || gone.count(id) != 0;
			};
			before.erase(std::remove_if(before.begin(), before.end(), touched), before.end());
			if (!fresh.empty() || !gone.empty()) {
				g.nontrivial();
			}
			auto called = log;
			called.erase(std::remove_if(called.begin(), called.end(), touched), called.end());
			CHECK_EQ(called, before, " calls of callbacks which stayed connected");
			CHECK_EQ(sig.size(), model.size(), " size");
		}
		log.clear();
		sig.emit();
		std::vector<int> expected;
		for (auto& m : model) {
			expected.push_back(m.id);
		}
		CHECK_EQ(log, expected, " calls after the changes");
	} catch (...) {
		cleanup();
		throw;
	}
	cleanup();
}

// Callbacks which keep a state of their own keep it from emission to emission.
PROPERTY("stateful", 2)
{
	struct counted {
		std::vector<int>* seen;
		int state;

		void operator()(int by)
		{
			this->state += by;
			this->seen->push_back(this->state);
		}
	};

	utki::signal<int> sig;
	std::vector<utki::signal<int>::connection> conns;
	std::vector<int> states;
	std::vector<int> seen;
	auto n = g.choice(12);
	bool again = false;
	bool emitted = false;
	for (size_t i = 0; i != n; ++i) {
		switch (g.choice(3)) {
			case 0:
				{
					auto start = int(g.choice(100));
					g.say([&] {
						return pbt::cat("connect with state ", start);
					});
					conns.push_back(sig.connect(counted{&seen, start}));
					states.push_back(start);
					break;
				}
			case 1:
				if (!conns.empty()) {
					auto k = g.choice(conns.size() - 1);
					g.say([&] {
						return pbt::cat("disconnect ", k);
					});
					sig.disconnect(conns[k]);
					conns.erase(conns.begin() + k);
					states.erase(states.begin() + k);
					break;
				}
				[[fallthrough]];
			default:
				{
					auto by = int(g.choice(9)) - 4;
					g.say([&] {
						return pbt::cat("emit ", by);
					});
					seen.clear();
					sig.emit(by);
					for (auto& s : states) {
						s += by;
					}
					CHECK(seen == states, "states ", seen, " instead of ", states);
					again = again || (emitted && !states.empty());
					emitted = emitted || !states.empty();
					break;
				}
		}
	}
	if (again) {
		g.nontrivial();
	}
	for (auto& c : conns) {
		sig.disconnect(c);
	}
}
