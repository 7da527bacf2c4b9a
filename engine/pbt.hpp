// Choice-sequence property-based testing engine.
//
// A case is a pure function of a finite sequence of bounded integer choices. The same
// harness source is driven by
//   * a random driver (seeded PRNG, several forked workers),
//   * libFuzzer (bytes are decoded to choices, coverage guided),
//   * a replay driver (choices are read from a file).
// Choices are recorded in shared memory while they are drawn, so also a case that ends in a
// sanitizer report, abort, or hang can be shrunk and replayed by the parent process.
// The choice 0 is always the simplest one; shrinking deletes, zeroes and lowers choices.
#pragma once

#include <sys/mman.h>
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

// thrown by PBT_CHECK, intentionally not derived from std::exception
struct failure {
	std::string msg;
};

class gen
{
public:
	static constexpr size_t max_choices = 1u << 16;

	struct shared_rec; // shared memory record, see engine.cpp

	enum class mode {
		random,
		replay,
		bytes
	};

	// ---- raw choice ----
	// integer in [0, max]
	uint64_t choice(uint64_t max);

	// ---- derived generators; everything goes through choice() ----

	bool boolean()
	{
		return this->choice(1) != 0;
	}

	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den)
	{
		return this->choice(den - 1) >= den - num;
	}

	// uniform in [lo, hi]
	template <class T>
	T range(T lo, T hi)
	{
		static_assert(std::is_integral_v<T>);
		using u = std::make_unsigned_t<T>;
		return T(u(u(lo) + u(this->choice(uint64_t(u(u(hi) - u(lo)))))));
	}

	uint8_t byte()
	{
		return uint8_t(this->choice(0xff));
	}

	uint64_t bits(unsigned n)
	{
		if (n == 0) {
			return 0;
		}
		return this->choice(n >= 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1);
	}

	// a size in [0, max], small sizes are more likely
	size_t size(size_t max)
	{
		switch (this->choice(7)) {
			default:
				return size_t(this->choice(std::min<size_t>(max, 8)));
			case 3:
			case 4:
				return size_t(this->choice(std::min<size_t>(max, 32)));
			case 5:
			case 6:
				return size_t(this->choice(std::min<size_t>(max, 128)));
			case 7:
				return size_t(this->choice(max));
		}
	}

	// like size(max), but one time in den a size up to huge, often around powers of two
	size_t large(size_t max, size_t huge, unsigned den = 100)
	{
		if (!this->chance(1, den)) {
			return this->size(max);
		}
		if (this->boolean()) {
			return size_t(this->choice(huge));
		}
		size_t n = 16;
		for (auto i = this->choice(20); i != 0 && n * 2 <= huge; --i) {
			n *= 2;
		}
		return std::min<size_t>(huge, n - 2 + size_t(this->choice(4)));
	}

	// a size of any order of magnitude below 2^bits; orders above 2^8 one time in den only
	size_t wide(unsigned bits, unsigned den = 30)
	{
		auto k = unsigned(this->chance(1, den) ? this->choice(bits) : this->choice(8));
		size_t p = size_t(1) << k;
		switch (this->choice(3)) {
			case 0:
				return p - 1;
			case 1:
				return p;
			case 2:
				return p + 1;
			default:
				return size_t(this->choice(p - 1)) + p / 2;
		}
	}

	// a size which is n or more: near n, near the largest one, or one which comes out below n if it is cut to less bits or
	// multiplied by a size of element
	size_t beyond(size_t n)
	{
		size_t ret;
		switch (this->choice(3)) {
			case 0:
				ret = n + size_t(this->choice(3));
				break;
			case 1:
				ret = size_t(0) - 1 - size_t(this->choice(70));
				break;
			case 2:
				ret = (size_t(1) << (8 * (1 + this->choice(6)))) + size_t(this->choice(n + 1));
				break;
			default:
				ret = (size_t(1) << (8 + this->choice(55))) + size_t(this->choice(n + 1));
				break;
		}
		return std::max(n, ret);
	}

	// source of many values which is decided by one choice only
	class stream
	{
		uint64_t s;

	public:
		stream(uint64_t s) :
			s(s)
		{}

		uint64_t next()
		{
			this->s += 0x9e3779b97f4a7c15;
			auto z = this->s;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9;
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb;
			return z ^ (z >> 31);
		}

		uint64_t below(uint64_t n)
		{
			return this->next() % n;
		}
	};

	stream many()
	{
		return stream(this->choice(0xffffffff));
	}

	// any value of integral type T: small values, boundaries, values around powers of two, random bits
	template <class T>
	T integer()
	{
		static_assert(std::is_integral_v<T>);
		using u = std::make_unsigned_t<T>;
		constexpr unsigned w = sizeof(T) * 8;
		switch (this->choice(5)) {
			case 0:
				return T(this->choice(15));
			case 1:
				return T(u(0) - u(this->choice(15)));
			case 2:
				return T(u(u(1) << this->choice(w - 1)) + u(this->choice(4)) - u(2));
			case 3:
				return T(u(std::numeric_limits<T>::max()) - u(this->choice(4)) + u(2));
			case 4:
				{
					auto n = unsigned(this->choice(w - 1)) + 1;
					return T(u(this->bits(n)));
				}
			default:
				return T(u(this->bits(w)));
		}
	}

	template <class C>
	auto pick(const C& c) -> const typename C::value_type&
	{
		return c[size_t(this->choice(c.size() - 1))];
	}

	template <class T>
	T pick(std::initializer_list<T> l)
	{
		return *(l.begin() + this->choice(l.size() - 1));
	}

	// weighted index
	size_t weighted(std::initializer_list<unsigned> w)
	{
		unsigned sum = 0;
		for (auto i : w) {
			sum += i;
		}
		auto v = unsigned(this->choice(sum - 1));
		size_t n = 0;
		for (auto i : w) {
			if (v < i) {
				return n;
			}
			v -= i;
			++n;
		}
		return n;
	}

	std::string text(size_t max_size, std::string_view alphabet)
	{
		std::string ret;
		auto n = this->large(max_size, std::max<size_t>(700, max_size * 8), 400);
		for (size_t i = 0; i != n; ++i) {
			ret.push_back(alphabet[size_t(this->choice(alphabet.size() - 1))]);
		}
		return ret;
	}

	std::vector<uint8_t> bytes(size_t max_size)
	{
		std::vector<uint8_t> ret;
		auto n = this->large(max_size, std::max<size_t>(700, max_size * 8), 400);
		auto kind = this->choice(3);
		for (size_t i = 0; i != n; ++i) {
			switch (kind) {
				default:
					ret.push_back(this->byte());
					break;
				case 2:
					ret.push_back(this->pick<uint8_t>({0, 0xff, 0x80, 0x7f}));
					break;
				case 3:
					ret.push_back(uint8_t(this->choice(3)));
					break;
			}
		}
		return ret;
	}

	// ---- bookkeeping ----

	// the case is non-trivial by the harness' rule
	void nontrivial()
	{
		this->is_nontrivial = true;
	}

	// classification of cases
	void label(const char* l)
	{
		this->labels.insert(l);
	}

	bool verbose = false;
	std::string transcript;

	// rendering of the case, only evaluated when a sample or a failure is printed
	template <class F>
	void say(F&& f)
	{
		if (this->verbose && this->transcript.size() < 6000) {
			this->transcript += f();
			this->transcript += "\n";
		}
	}

	// number of case run for which failure() was recorded even if the thrown failure was swallowed by the code under
	// test
	[[noreturn]] void fail(std::string msg)
	{
		if (this->failed.empty()) {
			this->failed = msg.empty() ? std::string("failure") : msg;
		}
		throw failure{std::move(msg)};
	}

	// record a failure without throwing
	void soft_fail(std::string msg)
	{
		if (this->failed.empty()) {
			this->failed = msg.empty() ? std::string("failure") : msg;
		}
	}

	// ---- engine internals ----
	mode m = mode::random;
	uint64_t rng[4] = {};
	const uint64_t* replay_data = nullptr;
	size_t replay_size = 0;
	const uint8_t* byte_data = nullptr;
	size_t byte_size = 0;
	size_t pos = 0;
	uint64_t hash = 0;
	bool is_nontrivial = false;
	std::set<std::string> labels;
	std::string failed;
	shared_rec* rec = nullptr;
	std::vector<uint64_t>* max_log = nullptr;

	void reset();
	void seed(uint64_t s);
};

// ---- harness registration ----

struct property {
	const char* name;
	unsigned weight;
	void (*run)(gen&);
};

std::vector<property>& registry();

struct registrar {
	registrar(const char* name, unsigned weight, void (*run)(gen&))
	{
		registry().push_back({name, weight, run});
	}
};

// defined by harness, states the rule by which a case is non-trivial
extern const char* const rule;

// ---- printing helpers ----

std::string quote(std::string_view s);

inline std::string hex(const void* p, size_t n)
{
	std::string ret;
	char b[4];
	for (size_t i = 0; i != n; ++i) {
		snprintf(b, sizeof(b), "%02x", reinterpret_cast<const uint8_t*>(p)[i]);
		ret += b;
	}
	return ret;
}

template <class T>
[[gnu::noinline, gnu::cold]] std::string str(const T& v)
{
	if constexpr (std::is_convertible_v<const T&, std::string_view>) {
		return quote(std::string_view(v));
	} else if constexpr (std::is_same_v<T, bool>) {
		return v ? "true" : "false";
	} else if constexpr (std::is_integral_v<T> && sizeof(T) <= 2) {
		return std::to_string(int64_t(v));
	} else if constexpr (std::is_integral_v<T>) {
		return std::is_signed_v<T> ? std::to_string(int64_t(v)) : std::to_string(uint64_t(v));
	} else if constexpr (std::is_enum_v<T>) {
		return std::to_string(uint64_t(v));
	} else if constexpr (std::is_floating_point_v<T>) {
		std::ostringstream ss;
		ss.precision(21);
		ss << v;
		return ss.str();
	} else if constexpr (std::is_pointer_v<T>) {
		return v ? "ptr" : "null";
	} else {
		std::string ret = "[";
		bool first = true;
		for (const auto& e : v) {
			if (!first) {
				ret += ", ";
			}
			first = false;
			ret += str(e);
		}
		return ret + "]";
	}
}

template <class... A>
[[gnu::noinline, gnu::cold]] std::string cat(const A&... a)
{
	std::string ret;
	auto add = [&](const auto& v) {
		using t = std::decay_t<decltype(v)>;
		if constexpr (std::is_same_v<t, const char*> || std::is_same_v<t, char*>) {
			ret += v;
		} else {
			ret += str(v);
		}
	};
	(add(a), ...);
	return ret;
}

// runs f, returns the kind of exception it ended with
template <class E, class F>
bool throws(F&& f)
{
	try {
		f();
	} catch (const failure&) {
		throw;
	} catch (const E&) {
		return true;
	}
	return false;
}

// Zeros, more of them than 32 bits can count. Only pages which are written take memory.
class huge
{
	static constexpr size_t max = size_t(9) << 30;

	static uint8_t* map()
	{
		static auto p = mmap(nullptr, max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		return p == MAP_FAILED ? nullptr : static_cast<uint8_t*>(p);
	}

	std::vector<uint8_t*> marks;

public:
	huge() = default;
	huge(const huge&) = delete;
	huge& operator=(const huge&) = delete;

	~huge()
	{
		for (auto m : this->marks) {
			auto page = reinterpret_cast<uintptr_t>(m) & ~uintptr_t(0xfff);
			madvise(reinterpret_cast<void*>(page), 0x1000, MADV_DONTNEED);
		}
	}

	// false where there is not so much of address space
	explicit operator bool() const
	{
		return map() != nullptr;
	}

	uint8_t* data() const
	{
		return map();
	}

	// a size, for which 32 bits are often not enough
	static size_t size(gen& g)
	{
		size_t n = size_t(1) << (31 + g.choice(2));
		switch (g.choice(2)) {
			case 0:
				return n + size_t(g.choice(40));
			case 1:
				return n - size_t(g.choice(40));
			default:
				return (size_t(1) << 20) + size_t(g.choice(max - 1 - (size_t(1) << 20)));
		}
	}

	// a number in [0, n], often a small one, or near n or near one with more than 32 bits
	static size_t up_to(gen& g, size_t n)
	{
		switch (g.choice(3)) {
			case 0:
				return std::min(n, size_t(g.choice(40)));
			case 1:
				return n - std::min(n, size_t(g.choice(40)));
			case 2:
				return std::min(n, size(g));
			default:
				return size_t(g.choice(n));
		}
	}

	// write a byte for the life time of this
	void mark(size_t pos, uint8_t b)
	{
		map()[pos] = b;
		this->marks.push_back(map() + pos);
	}
};

// Heap copy of exactly the needed size, so that the address sanitizer sees any access beyond either end.
template <class T>
class exact
{
	T* p;
	size_t n;

public:
	exact(const T* src, size_t n) :
		p(static_cast<T*>(malloc(n ? n * sizeof(T) : 1))),
		n(n)
	{
		if (n) {
			memcpy(static_cast<void*>(this->p), src, n * sizeof(T));
		}
	}

	explicit exact(const std::vector<T>& v) :
		exact(v.data(), v.size())
	{}

	explicit exact(std::basic_string_view<T> v) :
		exact(v.data(), v.size())
	{}

	exact(const exact&) = delete;
	exact& operator=(const exact&) = delete;

	~exact()
	{
		free(this->p);
	}

	T* data()
	{
		return this->p;
	}

	const T* data() const
	{
		return this->p;
	}

	size_t size() const
	{
		return this->n;
	}

	T* begin()
	{
		return this->p;
	}

	T* end()
	{
		return this->p + this->n;
	}
};

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

#define PROPERTY(name, weight) \
	static void PBT_CAT(pbt_prop_, __LINE__)(pbt::gen & g); \
	static pbt::registrar PBT_CAT(pbt_reg_, __LINE__)(name, weight, &PBT_CAT(pbt_prop_, __LINE__)); \
	static void PBT_CAT(pbt_prop_, __LINE__)([[maybe_unused]] pbt::gen & g)

namespace pbt {
template <class... A>
[[noreturn, gnu::noinline, gnu::cold]] void fail_cond(gen& g, const char* where, const A&... a)
{
	g.fail(std::string(where) + ": " + cat(a...));
}

template <class X, class Y, class... A>
[[noreturn, gnu::noinline, gnu::cold]] void fail_eq(gen& g, const char* where, const X& x, const Y& y, const A&... a)
{
	g.fail(std::string(where) + ": " + str(x) + " vs " + str(y) + " " + cat(a...));
}
} // namespace pbt

#define CHECK(cond, ...) \
	do { \
		if (!(cond)) { \
			pbt::fail_cond(g, "line " PBT_STR(__LINE__) ": " #cond, ##__VA_ARGS__); \
		} \
	} while (false)

#define CHECK_EQ(a, b, ...) \
	do { \
		const auto& pbt_a = (a); \
		const auto& pbt_b = (b); \
		if (!(pbt_a == pbt_b)) { \
			pbt::fail_eq(g, "line " PBT_STR(__LINE__) ": " #a " == " #b, pbt_a, pbt_b, ##__VA_ARGS__); \
		} \
	} while (false)
