// C29: spin lock, mutual exclusion and visibility
#include "pbt.hpp"

#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>

#include <utki/spin_lock.hpp>

const char* const pbt::rule = "at least two threads which take the same lock at least twice each";

namespace {
struct guarded {
	utki::spin_lock lock;
	std::atomic<int> inside{0};
	// plain data, only touched by the holder of the lock
	uint64_t counter = 0;
	uint64_t mirror[8] = {};
	int last_writer = -1;
	std::vector<int>* list = nullptr; // allocated and freed by holders
};

struct step {
	uint8_t lock_index;
	uint8_t work; // how long to stay inside
	uint8_t kind;
	uint8_t pause; // outside
};

void spin(unsigned n)
{
	for (unsigned i = 0; i != n; ++i) {
		std::atomic_signal_fence(std::memory_order_seq_cst);
	}
}

void pause_for(unsigned n)
{
	if (n == 0) {
		return;
	}
	if (n < 4) {
		std::this_thread::yield();
		return;
	}
	spin(n * 8);
}
} // namespace

PROPERTY("threads", 1)
{
	const size_t num_threads = 1 + g.choice(4);
	const size_t num_locks = 1 + g.choice(2);
	std::vector<std::vector<step>> program(num_threads);
	std::vector<uint64_t> expected(num_locks, 0);
	unsigned repeat = 1 + unsigned(g.choice(12));
	bool contended = false;
	std::vector<std::vector<unsigned>> uses(num_locks, std::vector<unsigned>(num_threads, 0));
	for (size_t t = 0; t != num_threads; ++t) {
		auto n = 1 + g.choice(5);
		for (size_t i = 0; i != n; ++i) {
			step s;
			s.lock_index = uint8_t(g.choice(num_locks - 1));
			s.work = uint8_t(g.choice(10));
			s.kind = uint8_t(g.choice(3));
			s.pause = uint8_t(g.choice(12));
			program[t].push_back(s);
			expected[s.lock_index] += repeat;
			uses[s.lock_index][t] += repeat;
		}
	}
	for (auto& u : uses) {
		unsigned k = 0;
		for (auto x : u) {
			k += x >= 2;
		}
		contended = contended || k >= 2;
	}
	if (contended) {
		g.nontrivial();
	}
	g.say([&] {
		std::string s = pbt::cat(num_threads, " threads, ", num_locks, " locks, each program ", repeat, " times");
		for (size_t t = 0; t != num_threads; ++t) {
			s += pbt::cat("; thread ", t, ":");
			for (auto& x : program[t]) {
				s += pbt::cat(" lock ", unsigned(x.lock_index), " kind ", unsigned(x.kind), " work ", unsigned(x.work));
			}
		}
		return s;
	});

	std::vector<std::unique_ptr<guarded>> data;
	for (size_t i = 0; i != num_locks; ++i) {
		data.push_back(std::make_unique<guarded>());
	}
	std::atomic<int> overlap{0};
	std::atomic<int> torn{0};
	std::atomic<bool> go{false};

	auto body = [&](int t) {
		while (!go.load(std::memory_order_relaxed)) {
			std::this_thread::yield();
		}
		auto critical = [&](guarded& d, const step& s) {
			// this flag must not order anything, so that only the lock does
			if (d.inside.fetch_add(1, std::memory_order_relaxed) != 0) {
				overlap.store(1, std::memory_order_relaxed);
			}
			for (auto m : d.mirror) {
				if (m != d.counter) {
					torn.store(1, std::memory_order_relaxed);
				}
			}
			auto c = d.counter + 1;
			d.counter = c;
			spin(s.work * 4);
			for (auto& m : d.mirror) {
				m = c;
			}
			d.last_writer = t;
			if (d.list) {
				if (d.list->size() > 3) {
					delete d.list;
					d.list = nullptr;
				} else {
					d.list->push_back(t);
				}
			} else {
				d.list = new std::vector<int>(1, t);
			}
			if (d.last_writer != t) {
				torn.store(1, std::memory_order_relaxed);
			}
			d.inside.fetch_sub(1, std::memory_order_relaxed);
		};
		for (unsigned r = 0; r != repeat; ++r) {
			for (auto& s : program[size_t(t)]) {
				auto& d = *data[s.lock_index];
				switch (s.kind) {
					case 0:
					case 1:
						d.lock.lock();
						critical(d, s);
						d.lock.unlock();
						break;
					case 2:
						{
							std::lock_guard<utki::spin_lock> l(d.lock);
							critical(d, s);
						}
						break;
					default:
						try {
							std::unique_lock<utki::spin_lock> l(d.lock);
							critical(d, s);
							throw t;
						} catch (int) {
						}
						break;
				}
				pause_for(s.pause);
			}
		}
	};

	std::vector<std::thread> threads;
	for (size_t t = 0; t != num_threads; ++t) {
		threads.emplace_back(body, int(t));
	}
	go.store(true, std::memory_order_relaxed);
	for (auto& t : threads) {
		t.join();
	}
	CHECK(!overlap, "two threads hold the lock at the same time");
	CHECK(!torn, "a holder does not see what the previous one wrote");
	for (size_t i = 0; i != num_locks; ++i) {
		CHECK_EQ(data[i]->counter, expected[i], " increments under lock ", i);
		delete data[i]->list;
	}
}

// The lock is not given while it is held: a thread which tries to take it waits for exactly the release.
PROPERTY("handover", 1)
{
	auto waiters = 1 + g.choice(3);
	auto rounds = 1 + unsigned(g.choice(4));
	auto hold = unsigned(g.choice(200));
	// rarely, the lock is held for seconds: waiting must not give up, once per process, as this takes real time
	static bool had_long = false;
	bool wants_long = g.chance(1, 50);
	bool is_long = wants_long && !had_long;
	had_long = had_long || wants_long;
	if (is_long) {
		g.label("held for seconds");
		rounds = 1;
	}
	g.say([&] {
		return pbt::cat(waiters, " waiters, ", rounds, " rounds, held for ", is_long ? std::string("5 s") : std::to_string(hold));
	});
	if (rounds >= 2) {
		g.nontrivial();
	}
	utki::spin_lock lock;
	std::atomic<bool> early{false};
	for (unsigned r = 0; r != rounds; ++r) {
		std::atomic<bool> released{false};
		int value = 0; // plain
		std::atomic<size_t> started{0};
		lock.lock();
		std::vector<std::thread> threads;
		for (size_t i = 0; i != waiters; ++i) {
			threads.emplace_back([&] {
				started.fetch_add(1, std::memory_order_relaxed);
				lock.lock();
				if (!released.load(std::memory_order_relaxed)) {
					early.store(true, std::memory_order_relaxed);
				}
				++value;
				lock.unlock();
			});
		}
		while (started.load(std::memory_order_relaxed) != waiters) {
			std::this_thread::yield();
		}
		value = 100;
		if (is_long) {
			std::this_thread::sleep_for(std::chrono::seconds(5));
		}
		spin(hold * 50);
		released.store(true, std::memory_order_relaxed);
		lock.unlock();
		for (auto& t : threads) {
			t.join();
		}
		CHECK_EQ(value, 100 + int(waiters), " after all waiters");
	}
	CHECK(!early, "lock is given while it is held");
}
