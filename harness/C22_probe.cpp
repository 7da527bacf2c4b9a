// C22: program with arrays made of the seed, sorted at compile time
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>

#ifndef PROBE_CONTROL
#	include <utki/sort.hpp>
#endif

namespace {
constexpr uint32_t rnd(uint32_t& s)
{
	s ^= s << 13;
	s ^= s >> 17;
	s ^= s << 5;
	return s;
}

struct rec {
	int key = 0;
	int id = 0;
};

struct by_key {
	constexpr bool operator()(const rec& a, const rec& b) const
	{
		return a.key < b.key;
	}
};

struct by_key_descending {
	constexpr bool operator()(const rec& a, const rec& b) const
	{
		return b.key < a.key;
	}
};

template <size_t N>
constexpr std::array<rec, N> make(uint32_t range)
{
	std::array<rec, N> a{};
	uint32_t s = 2463534242u ^ (uint32_t(VERIF_SEED) * 2654435761u) ^ uint32_t(N);
	int id = 0;
	for (auto& i : a) {
		i = rec{int(rnd(s) % range), id};
		++id;
	}
	return a;
}

template <size_t N, class Cmp>
constexpr std::array<rec, N> run(uint32_t range)
{
	auto a = make<N>(range);
#ifndef PROBE_CONTROL
	utki::sort(a.begin(), a.end(), Cmp{});
#endif
	return a;
}

template <size_t N, class Cmp = by_key>
constexpr bool ok(uint32_t range)
{
#ifdef PROBE_CONTROL
	return true;
#else
	auto o = make<N>(range);
	auto a = run<N, Cmp>(range);
	std::array<bool, N> seen{};
	for (size_t i = 0; i != N; ++i) {
		if (i != 0 && Cmp{}(a[i], a[i - 1])) {
			return false;
		}
		if (a[i].id < 0 || size_t(a[i].id) >= N || seen[size_t(a[i].id)]) {
			return false;
		}
		seen[size_t(a[i].id)] = true;
		if (o[size_t(a[i].id)].key != a[i].key) {
			return false;
		}
	}
	return true;
#endif
}

constexpr bool plain()
{
#ifndef PROBE_CONTROL
	std::array<int, 5> a{{3, 1, 2, 1, int(VERIF_SEED % 7)}};
	utki::sort(a.begin(), a.end());
	for (size_t i = 1; i != 5; ++i) {
		if (a[i] < a[i - 1]) {
			return false;
		}
	}
#endif
	return true;
}
} // namespace

#define SORTED(...) static_assert(__VA_ARGS__, "sorted at compile time")
SORTED(ok<1>(5));
SORTED(ok<2>(2));
SORTED(ok<2>(1000));
SORTED(ok<3>(3));
SORTED(ok<4>(1000));
SORTED(ok<5>(1000));
SORTED(ok<6>(3));
SORTED(ok<8>(3));
SORTED(ok<10>(1000));
SORTED(ok<17>(4));
SORTED(ok<40>(3));
SORTED(ok<50>(1));
SORTED(ok<60>(1000));
SORTED(ok<64>(1000));
SORTED(ok<2, by_key_descending>(20));
SORTED(ok<5, by_key_descending>(20));
SORTED(ok<12, by_key_descending>(20));
SORTED(ok<33, by_key_descending>(20));
static_assert(plain(), "sorted at compile time");
