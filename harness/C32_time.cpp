// C32: millisecond ticks, with the clocks of the system under control of the check
#include "pbt.hpp"

#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include <utki/time.hpp>

const char* const pbt::rule = "at least two readings, and the counter wraps around or the time is not a whole number of milliseconds";

namespace {
bool fake = false;
constexpr int num_clocks = 12;
int64_t fake_ns[num_clocks]; // per clock id
unsigned asked = 0;
} // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!fake || id < 0 || id >= num_clocks) {
		return int(syscall(SYS_clock_gettime, id, ts));
	}
	++asked;
	auto ns = fake_ns[id];
	ts->tv_sec = time_t(ns / 1000000000);
	ts->tv_nsec = long(ns % 1000000000);
	return 0;
}

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

extern "C" time_t time(time_t* t) noexcept
{
	timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) {
		*t = ts.tv_sec;
	}
	return ts.tv_sec;
}

namespace {
uint32_t read_ticks()
{
	struct scope {
		scope()
		{
			fake = true;
		}

		~scope()
		{
			fake = false;
		}
	} s;
	return utki::get_ticks_ms();
}
} // namespace

PROPERTY("history", 1)
{
	// each clock has its own time; the function may use any of them, but only one
	const int64_t wrap_ns = (int64_t(1) << 32) * 1000000;
	int64_t base;
	switch (g.choice(3)) {
		case 0:
			base = int64_t(g.bits(40));
			break;
		case 1: // before wrap around
			base = wrap_ns * int64_t(g.range(1, 300)) - int64_t(g.bits(33));
			break;
		case 2: // before half
			base = wrap_ns * int64_t(g.range(0, 300)) + wrap_ns / 2 - int64_t(g.bits(33));
			break;
		default:
			base = int64_t(g.bits(60));
			break;
	}
	int64_t offset[num_clocks];
	for (int i = 0; i != num_clocks; ++i) {
		offset[i] = int64_t(i) * 987654321987ll + int64_t(i) * 1234567;
	}
	bool consistent[num_clocks];
	bool absolute[num_clocks];
	std::fill(std::begin(consistent), std::end(consistent), true);
	std::fill(std::begin(absolute), std::end(absolute), true);
	auto n = 1 + g.large(12, 400);
	int64_t t = base;
	uint32_t prev = 0;
	int64_t prev_t = 0;
	bool wrapped = false;
	bool fraction = false;
	bool ever_asked = false;
	std::string transcript;
	auto floor_ms = [](int64_t ns) {
		return ns / 1000000;
	};
	for (size_t i = 0; i != n; ++i) {
		if (i != 0) {
			switch (g.choice(5)) {
				case 0:
					t += int64_t(g.choice(2000000));
					break;
				case 1:
					t += 1000000 * int64_t(g.choice(5000));
					break;
				case 2:
					t += 1;
					break;
				case 3:
					t += int64_t(g.bits(36));
					break;
				case 4:
					t += 1000000 - t % 1000000 - int64_t(g.choice(1));
					break;
				default:
					t += int64_t(g.bits(53));
					break;
			}
		}
		for (int c = 0; c != num_clocks; ++c) {
			fake_ns[c] = t + offset[c];
		}
		asked = 0;
		auto v = read_ticks();
		ever_asked = ever_asked || asked != 0;
		transcript += pbt::cat(t, " ns: ", v, "; ");
		fraction = fraction || t % 1000000 != 0;
		for (int c = 0; c != num_clocks; ++c) {
			absolute[c] = absolute[c] && v == uint32_t(floor_ms(t + offset[c]));
			if (i != 0) {
				consistent[c] = consistent[c] &&
					uint32_t(v - prev) == uint32_t(floor_ms(t + offset[c]) - floor_ms(prev_t + offset[c]));
			}
		}
		if (i != 0 && v < prev) {
			wrapped = true;
		}
		prev = v;
		prev_t = t;
	}
	g.say([&] {
		return transcript;
	});
	if (n >= 2 && (wrapped || fraction)) {
		g.nontrivial();
	}
	if (wrapped) {
		g.label("wrapped");
	}
	if (!ever_asked) {
		// time comes from somewhere else than the clocks which are under control here
		g.label("clock not under control");
		return;
	}
	bool any = false;
	for (int c = 0; c != num_clocks; ++c) {
		any = any || (consistent[c] && absolute[c]);
	}
	CHECK(any, "ticks do not follow any of the clocks: ", transcript);
}

// with the real clock: the reading lies between two readings of one of the clocks
PROPERTY("real_clock", 1)
{
	auto spin = g.choice(2000);
	auto rounds = 2 + g.choice(4);
	const clockid_t ids[] = {CLOCK_REALTIME, CLOCK_MONOTONIC, CLOCK_BOOTTIME, CLOCK_MONOTONIC_RAW, CLOCK_TAI, CLOCK_REALTIME_COARSE, CLOCK_MONOTONIC_COARSE};
	bool ok[7];
	std::fill(std::begin(ok), std::end(ok), true);
	for (size_t r = 0; r != rounds; ++r) {
		timespec before[7];
		timespec after[7];
		for (int i = 0; i != 7; ++i) {
			clock_gettime(ids[i], &before[i]);
		}
		auto v = utki::get_ticks_ms();
		for (int i = 0; i != 7; ++i) {
			clock_gettime(ids[i], &after[i]);
			auto ms = [](const timespec& t) {
				return uint32_t(uint64_t(t.tv_sec) * 1000 + uint64_t(t.tv_nsec) / 1000000);
			};
			// the wall clock may be set while we run, in which case this says nothing
			bool sane = uint32_t(ms(after[i]) - ms(before[i])) < 0x80000000u;
			ok[i] = ok[i] && (!sane || uint32_t(v - ms(before[i])) <= uint32_t(ms(after[i]) - ms(before[i])));
		}
		for (size_t i = 0; i != spin; ++i) {
			asm volatile("");
		}
	}
	g.nontrivial();
	g.say([&] {
		return pbt::cat(rounds, " rounds");
	});
	bool any = false;
	for (bool b : ok) {
		any = any || b;
	}
	CHECK(any, "ticks are not the time of any clock");
}
