// C05: histories of reads against a plain cursor; failed reads consume nothing.
#include "pbt.hpp"

#include <cstring>
#include <stdexcept>

#include <utki/deserializer.hpp>

const char* const pbt::rule = "the history has at least one successful read of more than one byte and at least one failed operation";

namespace {
struct model {
	const std::vector<uint8_t>& b;
	size_t pos = 0;

	size_t left() const
	{
		return b.size() - pos;
	}

	uint64_t number(size_t n, bool be)
	{
		uint64_t v = 0;
		for (size_t i = 0; i != n; ++i) {
			v |= uint64_t(b[pos + i]) << (8 * (be ? n - 1 - i : i));
		}
		pos += n;
		return v;
	}
};

uint64_t bits_of(float f)
{
	uint32_t u;
	memcpy(&u, &f, 4);
	return u;
}
} // namespace

PROPERTY("history", 4)
{
	auto bytes = g.bytes(g.chance(1, 20) ? 400 : 48);
	pbt::exact<uint8_t> data(bytes);
	g.say([&] {
		return pbt::cat("data ", pbt::hex(bytes.data(), bytes.size()));
	});
	utki::deserializer d(utki::make_span(static_cast<const uint8_t*>(data.data()), data.size()));
	model m{bytes};
	bool some = false;
	bool failed_some = false;

	auto check_state = [&](const utki::deserializer& d, const model& m) {
		CHECK_EQ(d.size(), m.left());
		CHECK_EQ(d.empty(), m.left() == 0);
	};
	check_state(d, m);

	auto num_ops = g.large(40, 400);
	for (size_t i = 0; i != num_ops; ++i) {
		auto op = g.choice(12);
		// length for operations with length: around what is left
		size_t len = 0;
		if (op <= 2) {
			switch (g.choice(5)) {
				case 0:
				case 1:
					len = size_t(g.choice(8));
					break;
				case 2:
					len = m.left();
					break;
				case 3:
					len = m.left() + 1 + size_t(g.choice(3));
					break;
				case 4:
					len = g.beyond(m.left());
					break;
				default:
					len = size_t(g.choice(m.left()));
					break;
			}
		}
		static const size_t widths[] = {0, 0, 0, 1, 2, 4, 8, 4, 2, 4, 8, 4, 0};
		size_t need = op <= 2 ? len : widths[op];
		bool must_fail = need > m.left();
		g.say([&] {
			static const char* names[] = {"read_string", "read_span", "skip", "uint8", "uint16_le", "uint32_le", "uint64_le", "float_le", "uint16_be", "uint32_be", "uint64_be", "float_be", "copy"};
			return pbt::cat("  ", names[op], " ", need, " of ", m.left(), must_fail ? " must fail" : "");
		});
		bool failed = false;
		auto before = m.pos;
		try {
			switch (op) {
				case 0:
					{
						auto s = d.read_string(len);
						CHECK(!must_fail, "read_string ", len, " of ", m.left());
						CHECK_EQ(s.size(), len);
						CHECK(len == 0 || s.data() == reinterpret_cast<const char*>(data.data() + before));
						CHECK(len == 0 || memcmp(s.data(), bytes.data() + before, len) == 0);
						m.pos += len;
					}
					break;
				case 1:
					{
						auto s = d.read_span(len);
						CHECK(!must_fail, "read_span ", len, " of ", m.left());
						CHECK_EQ(s.size(), len);
						CHECK(len == 0 || s.data() == data.data() + before);
						CHECK(std::equal(s.begin(), s.end(), bytes.begin() + ptrdiff_t(before)));
						m.pos += len;
					}
					break;
				case 2:
					d.skip(len);
					CHECK(!must_fail, "skip ", len, " of ", m.left());
					m.pos += len;
					break;
				case 3:
					{
						auto v = d.read_uint8();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(1, false));
					}
					break;
				case 4:
					{
						auto v = d.read_uint16_le();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(2, false));
					}
					break;
				case 5:
					{
						auto v = d.read_uint32_le();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(4, false));
					}
					break;
				case 6:
					{
						auto v = d.read_uint64_le();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(8, false));
					}
					break;
				case 7:
					{
						auto v = d.read_float_le();
						CHECK(!must_fail);
						CHECK_EQ(bits_of(v), m.number(4, false));
					}
					break;
				case 8:
					{
						auto v = d.read_uint16_be();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(2, true));
					}
					break;
				case 9:
					{
						auto v = d.read_uint32_be();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(4, true));
					}
					break;
				case 10:
					{
						auto v = d.read_uint64_be();
						CHECK(!must_fail);
						CHECK_EQ(uint64_t(v), m.number(8, true));
					}
					break;
				case 11:
					{
						auto v = d.read_float_be();
						CHECK(!must_fail);
						CHECK_EQ(bits_of(v), m.number(4, true));
					}
					break;
				default:
					{
						// a copy reads on its own
						auto c = d;
						model mc = m;
						check_state(c, mc);
						if (mc.left() != 0) {
							CHECK_EQ(uint64_t(c.read_uint8()), mc.number(1, false));
						}
						check_state(c, mc);
					}
					break;
			}
		} catch (const std::invalid_argument&) {
			failed = true;
			CHECK(must_fail, "needs ", need, " of ", m.left());
		}
		if (!failed && need > 1) {
			some = true;
		}
		if (failed) {
			failed_some = true;
			CHECK_EQ(m.pos, before);
		}
		check_state(d, m);
	}
	// whatever is left is still readable
	auto rest = d.read_span(d.size());
	CHECK_EQ(rest.size(), m.left());
	CHECK(std::equal(rest.begin(), rest.end(), bytes.begin() + ptrdiff_t(m.pos)));
	CHECK(d.empty());
	CHECK(std::equal(bytes.begin(), bytes.end(), data.begin()), "data changed");
	if (some && failed_some) {
		g.nontrivial();
	}
	g.label(failed_some ? "with failure" : "without failure");
}

// data of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(18, 40);
	auto m = g.many();
	std::vector<uint8_t> v(n);
	for (auto& b : v) {
		b = uint8_t(m.next());
	}
	g.say([&] {
		return pbt::cat(n, " bytes");
	});
	if (n > 400) {
		g.nontrivial();
		g.label(n > 65535 ? "more than 65535 bytes" : "more than 400 bytes");
	}
	pbt::exact<uint8_t> e(v);
	utki::deserializer d(utki::make_span(static_cast<const uint8_t*>(e.data()), e.size()));
	size_t pos = 0;
	auto steps = g.choice(12);
	for (size_t i = 0; i != steps; ++i) {
		auto len = g.boolean() ? size_t(g.choice(n)) : size_t(g.choice(20));
		bool fits = len <= n - pos;
		auto what = g.choice(3);
		g.say([&] {
			return pbt::cat("operation ", what, " of ", len, " at ", pos);
		});
		bool threw = false;
		try {
			switch (what) {
				case 0:
					d.skip(len);
					break;
				case 1:
					{
						auto s = d.read_span(len);
						CHECK(s.data() == e.data() + pos && s.size() == len, "span at ", pos);
					}
					break;
				case 2:
					{
						auto s = d.read_string(len);
						CHECK(static_cast<const void*>(s.data()) == e.data() + pos && s.size() == len, "string at ", pos);
					}
					break;
				default:
					len = 1;
					fits = len <= n - pos;
					CHECK_EQ(unsigned(d.read_uint8()), unsigned(v[pos]), " byte at ", pos);
					break;
			}
		} catch (const std::invalid_argument&) {
			threw = true;
		}
		CHECK_EQ(threw, !fits, " exception of reading ", len, " of ", n - pos);
		if (fits) {
			pos += len;
		}
		CHECK_EQ(d.size(), n - pos, " size");
		CHECK_EQ(d.empty(), n == pos, " empty");
	}
}

// data which is larger than 32 bits can tell
PROPERTY("huge", 1)
{
	pbt::huge h;
	if (!h) {
		return;
	}
	auto n = h.size(g);
	utki::deserializer d(utki::make_span(static_cast<const uint8_t*>(h.data()), n));
	g.say([&] {
		return pbt::cat(n, " bytes");
	});
	if (n >> 32) {
		g.nontrivial();
		g.label("more than 4 gigabytes");
	}
	size_t pos = 0;
	auto steps = 1 + g.choice(6);
	for (size_t i = 0; i != steps; ++i) {
		auto left = n - pos;
		CHECK_EQ(d.size(), left, " bytes left");
		CHECK_EQ(d.empty(), left == 0, " empty");
		auto what = g.choice(5);
		auto len = what >= 3 ? (what == 3 ? 1 : 8) : g.chance(1, 6) ? g.beyond(left + 1) : h.up_to(g, left);
		bool fits = len <= left;
		g.say([&] {
			return pbt::cat("operation ", what, " of ", len, " at ", pos);
		});
		bool threw = false;
		try {
			switch (what) {
				case 0:
					d.skip(len);
					break;
				case 1:
					{
						auto s = d.read_span(len);
						CHECK(s.data() == h.data() + pos && s.size() == len, "span at ", pos);
						break;
					}
				case 2:
					{
						auto s = d.read_string(len);
						CHECK(static_cast<const void*>(s.data()) == h.data() + pos && s.size() == len, "string at ", pos);
						break;
					}
				case 3:
					{
						auto v = g.byte();
						if (fits) {
							h.mark(pos, v);
						}
						CHECK_EQ(unsigned(d.read_uint8()), unsigned(v), " at ", pos);
						break;
					}
				default:
					{
						auto v = g.byte();
						if (fits) {
							h.mark(pos + 7, v);
						}
						auto got = what == 4 ? d.read_uint64_be() & 0xff : d.read_uint64_le() >> 56;
						CHECK_EQ(unsigned(got), unsigned(v), " at ", pos);
						break;
					}
			}
		} catch (const std::invalid_argument&) {
			threw = true;
		}
		CHECK_EQ(threw, !fits, " error, ", len, " of ", left);
		if (fits) {
			pos += len;
		}
	}
	CHECK_EQ(d.size(), n - pos, " bytes left");
}
