// C17: sets of flags against a plain set, for enumerations of many sizes
#include "pbt.hpp"

#include <utki/flags.hpp>

const char* const pbt::rule = "at least two operations, with some but not all flags set at some point";

namespace {
template <class U, size_t N>
struct holder {
	enum class e : U {
		enum_size = U(N)
	};
};

template <class E>
void run(pbt::gen& g)
{
	constexpr size_t n = size_t(E::enum_size);
	using flags = utki::flags<E>;
	using model = std::vector<bool>;

	std::array<flags, 3> f;
	std::array<model, 3> m;
	for (auto& i : m) {
		i.assign(n, false);
	}

	auto item = [&] {
		// borders are more interesting
		switch (g.choice(3)) {
			case 0:
				return size_t(g.choice(std::min<size_t>(n - 1, 2)));
			case 1:
				return n - 1 - size_t(g.choice(std::min<size_t>(n - 1, 2)));
			case 2:
				return std::min(n - 1, size_t(g.pick<size_t>({7, 8, 31, 32, 63, 64, 65, 127, 128})));
			default:
				return size_t(g.choice(n - 1));
		}
	};
	g.say([&] {
		return pbt::cat("enumeration of ", n, " items");
	});
	// construction
	for (size_t k = 0; k != 3; ++k) {
		switch (g.choice(5)) {
			case 0:
				break;
			case 1:
				{
					bool v = g.boolean();
					f[k] = flags(v);
					m[k].assign(n, v);
				}
				break;
			case 2:
				{
					auto a = item();
					f[k] = flags(E(a));
					m[k][a] = true;
				}
				break;
			case 3:
				{
					auto a = item();
					auto b = item();
					auto c = item();
					f[k] = flags{E(a), E(b), E(c)};
					m[k][a] = m[k][b] = m[k][c] = true;
				}
				break;
			case 4:
				{
					auto a = item();
					auto b = item();
					f[k] = E(a) | E(b);
					m[k][a] = m[k][b] = true;
				}
				break;
			default:
				{
					auto a = item();
					auto b = item();
					f[k] = utki::make_flags({E(a), E(b)});
					m[k][a] = m[k][b] = true;
				}
				break;
		}
	}
	auto steps = 1 + g.size(30);
	bool mixed = false;
	auto verify = [&](const char* what, size_t touched) {
		for (size_t k = 0; k != 3; ++k) {
			const flags& cf = f[k];
			size_t cnt = 0;
			std::string text;
			for (size_t i = 0; i != n; ++i) {
				CHECK_EQ(cf.get(E(i)), bool(m[k][i]), " get of item ", i, " of set ", k, " after ", what);
				CHECK_EQ(bool(cf[E(i)]), bool(m[k][i]), " operator[] of item ", i, " of set ", k, " after ", what);
				cnt += m[k][i];
				text += m[k][i] ? '1' : '0';
			}
			CHECK_EQ(cf.is_clear(), cnt == 0, " is_clear of set ", k, " after ", what);
			CHECK_EQ(cf.is_set(), cnt == n, " is_set of set ", k, " after ", what);
			CHECK_EQ(cf.size(), n, " size");
			if (k == touched) {
				// the last item comes first in the text
				std::reverse(text.begin(), text.end());
				std::ostringstream ss;
				ss << cf;
				CHECK_EQ(ss.str(), text, " text of set ", k, " after ", what);
			}
			if (cnt != 0 && cnt != n) {
				mixed = true;
			}
		}
		for (size_t a = 0; a != 3; ++a) {
			for (size_t b = 0; b != 3; ++b) {
				CHECK_EQ(f[a] == f[b], m[a] == m[b], " equality of ", a, " and ", b, " after ", what);
				CHECK_EQ(f[a] != f[b], m[a] != m[b], " inequality of ", a, " and ", b, " after ", what);
			}
		}
	};
	verify("construction", 0);
	for (size_t s = 0; s != steps; ++s) {
		size_t k = g.choice(2);
		size_t o = g.choice(2);
		auto i = item();
		auto op = g.choice(17);
		const char* what = "";
		flags* r = &f[k]; // what the operation returns
		auto combine = [&](auto fn) {
			for (size_t j = 0; j != n; ++j) {
				m[k][j] = fn(bool(m[k][j]), bool(m[o][j]));
			}
		};
		auto combined = [&](const flags& res, auto fn, const char* name) {
			for (size_t j = 0; j != n; ++j) {
				CHECK_EQ(res.get(E(j)), fn(bool(m[k][j]), bool(m[o][j])), " item ", j, " of ", name);
			}
			// bits outside of the enumeration do not show
			size_t cnt = 0;
			for (size_t j = 0; j != n; ++j) {
				cnt += res.get(E(j));
			}
			CHECK_EQ(res.is_clear(), cnt == 0, " is_clear of ", name);
			CHECK_EQ(res.is_set(), cnt == n, " is_set of ", name);
		};
		switch (op) {
			case 0:
				what = "set";
				r = &f[k].set(E(i));
				m[k][i] = true;
				break;
			case 1:
				{
					what = "set value";
					bool v = g.boolean();
					r = &f[k].set(E(i), v);
					m[k][i] = v;
				}
				break;
			case 2:
				what = "clear";
				r = &f[k].clear(E(i));
				m[k][i] = false;
				break;
			case 3:
				{
					what = "set all";
					bool v = g.boolean();
					r = &f[k].set(v);
					m[k].assign(n, v);
				}
				break;
			case 4:
				what = "set all by default";
				r = &f[k].set();
				m[k].assign(n, true);
				break;
			case 5:
				what = "clear all";
				r = &f[k].clear();
				m[k].assign(n, false);
				break;
			case 6:
				what = "invert";
				r = &f[k].invert();
				m[k].flip();
				break;
			case 7:
				{
					what = "~";
					auto res = ~f[k];
					combined(res, [](bool a, bool) { return !a; }, "~");
					CHECK(!(res == f[k]), "equal to own complement");
					CHECK((res & f[k]).is_clear(), "intersection with complement");
					CHECK((res | f[k]).is_set(), "union with complement");
					CHECK((~res) == f[k], "double complement");
				}
				break;
			case 8:
				what = "&=";
				r = &(f[k] &= f[o]);
				combine([](bool a, bool b) { return a && b; });
				break;
			case 9:
				what = "|=";
				r = &(f[k] |= f[o]);
				combine([](bool a, bool b) { return a || b; });
				break;
			case 10:
				what = "^=";
				r = &(f[k] ^= f[o]);
				combine([](bool a, bool b) { return a != b; });
				break;
			case 11:
				what = "&";
				combined(f[k] & f[o], [](bool a, bool b) { return a && b; }, "&");
				break;
			case 12:
				what = "|";
				combined(f[k] | f[o], [](bool a, bool b) { return a || b; }, "|");
				break;
			case 13:
				what = "^";
				combined(f[k] ^ f[o], [](bool a, bool b) { return a != b; }, "^");
				break;
			case 14:
				{
					what = "| item";
					auto res = f[k] | E(i);
					for (size_t j = 0; j != n; ++j) {
						CHECK_EQ(res.get(E(j)), m[k][j] || j == i, " item ", j, " of | item ", i);
					}
				}
				break;
			case 15:
				{
					what = "operator[] write";
					bool v = g.boolean();
					f[k][E(i)] = v;
					m[k][i] = v;
				}
				break;
			case 16:
				what = "& item";
				{
					auto res = f[k] & flags(E(i));
					CHECK_EQ(res.is_clear(), !m[k][i], " masked item ", i);
				}
				break;
			default:
				what = "assign";
				f[k] = f[o];
				m[k] = model(m[o]);
				break;
		}
		CHECK(r == &f[k], "reference returned by ", what);
		g.say([&] {
			return pbt::cat(what, " set ", k, " item ", i, " other set ", o);
		});
		verify(what, k);
	}
	if (steps >= 2 && mixed) {
		g.nontrivial();
	}
}

using fn = void (*)(pbt::gen&);

template <class U, size_t... N>
std::vector<fn> table(std::index_sequence<N...>)
{
	return {&run<typename holder<U, N>::e>...};
}

template <size_t... N>
using sizes = std::index_sequence<N...>;
} // namespace

PROPERTY("int", 2)
{
	static const auto t = table<int>(sizes<1, 2, 8, 31, 32, 33, 63, 64, 65, 129>());
	g.pick(t)(g);
}

PROPERTY("narrow", 1)
{
	static const auto t = table<uint8_t>(sizes<3, 255>());
	static const auto s = table<int8_t>(sizes<127>());
	g.boolean() ? g.pick(t)(g) : g.pick(s)(g);
}

PROPERTY("wide", 1)
{
	static const auto t = table<uint64_t>(sizes<64, 100>());
	g.pick(t)(g);
}
