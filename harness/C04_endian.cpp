// C04: fixed byte order serialization
#include "pbt.hpp"

#include <cstring>

#include <utki/utility.hpp>

const char* const pbt::rule = "the serialized value has at least two different bytes";

namespace {
constexpr size_t guard = 24;

template <class T>
void check_int(
	pbt::gen& g,
	T value,
	bool be,
	uint8_t* (*ser)(T, uint8_t*) noexcept,
	T (*des)(const uint8_t*) noexcept
)
{
	auto align = size_t(g.choice(7));
	auto fill = g.byte();
	std::vector<uint8_t> expected(sizeof(T));
	for (size_t i = 0; i != sizeof(T); ++i) {
		expected[be ? sizeof(T) - 1 - i : i] = uint8_t(uint64_t(value) >> (8 * i));
	}
	if (std::any_of(expected.begin(), expected.end(), [&](auto b) { return b != expected[0]; })) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("width ", sizeof(T), be ? " be " : " le ", "value ", value, " alignment ", align);
	});
	// guards on both sides
	std::vector<uint8_t> buf(guard + align + sizeof(T) + guard, fill);
	auto p = buf.data() + guard + align;
	auto end = ser(value, p);
	CHECK(end == p + sizeof(T), "returned position is off by ", int64_t(end - (p + sizeof(T))));
	std::vector<uint8_t> whole(buf.size(), fill);
	std::copy(expected.begin(), expected.end(), whole.begin() + guard + align);
	CHECK_EQ(buf, whole);
	CHECK_EQ(des(p), value);
	// exact-size input buffer, input is not changed
	pbt::exact<uint8_t> e(expected);
	CHECK_EQ(des(e.data()), value);
	CHECK(std::equal(expected.begin(), expected.end(), e.begin()));
}

uint32_t float_bits(pbt::gen& g)
{
	switch (g.choice(5)) {
		case 0:
			return g.pick<uint32_t>({0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 1, 0x80000001, 0x7f7fffff, 0x007fffff});
		case 1: // NaN payloads
			return 0x7f800000u | uint32_t(g.choice(0x7fffff)) | (g.boolean() ? 0x80000000u : 0);
		default:
			return uint32_t(g.bits(32));
	}
}
} // namespace

PROPERTY("uint16", 1)
{
	auto v = g.integer<uint16_t>();
	check_int<uint16_t>(g, v, false, &utki::serialize16le, &utki::deserialize16le);
	check_int<uint16_t>(g, v, true, &utki::serialize16be, &utki::deserialize16be);
}

PROPERTY("uint32", 2)
{
	auto v = g.integer<uint32_t>();
	check_int<uint32_t>(g, v, false, &utki::serialize32le, &utki::deserialize32le);
	check_int<uint32_t>(g, v, true, &utki::serialize32be, &utki::deserialize32be);
}

PROPERTY("uint64", 2)
{
	auto v = g.integer<uint64_t>();
	check_int<uint64_t>(g, v, false, &utki::serialize64le, &utki::deserialize64le);
	check_int<uint64_t>(g, v, true, &utki::serialize64be, &utki::deserialize64be);
}

PROPERTY("generic", 2)
{
	switch (g.choice(5)) {
		case 0:
			{
				auto v = g.integer<uint8_t>();
				check_int<uint8_t>(g, v, false, &utki::serialize_le<uint8_t>, &utki::deserialize_le<uint8_t>);
				check_int<uint8_t>(g, v, true, &utki::serialize_be<uint8_t>, &utki::deserialize_be<uint8_t>);
			}
			break;
		case 1:
			{
				auto v = g.integer<uint16_t>();
				check_int<uint16_t>(g, v, false, &utki::serialize_le<uint16_t>, &utki::deserialize_le<uint16_t>);
				check_int<uint16_t>(g, v, true, &utki::serialize_be<uint16_t>, &utki::deserialize_be<uint16_t>);
			}
			break;
		case 2:
			{
				auto v = g.integer<uint32_t>();
				check_int<uint32_t>(g, v, false, &utki::serialize_le<uint32_t>, &utki::deserialize_le<uint32_t>);
				check_int<uint32_t>(g, v, true, &utki::serialize_be<uint32_t>, &utki::deserialize_be<uint32_t>);
			}
			break;
		case 3:
			{
				auto v = g.integer<uint64_t>();
				check_int<uint64_t>(g, v, false, &utki::serialize_le<uint64_t>, &utki::deserialize_le<uint64_t>);
				check_int<uint64_t>(g, v, true, &utki::serialize_be<uint64_t>, &utki::deserialize_be<uint64_t>);
			}
			break;
		default:
			{
				auto v = g.integer<unsigned long long>();
				check_int<unsigned long long>(
					g,
					v,
					false,
					&utki::serialize_le<unsigned long long>,
					&utki::deserialize_le<unsigned long long>
				);
				check_int<unsigned long long>(
					g,
					v,
					true,
					&utki::serialize_be<unsigned long long>,
					&utki::deserialize_be<unsigned long long>
				);
			}
			break;
	}
}

PROPERTY("float", 3)
{
	auto bits = float_bits(g);
	bool be = g.boolean();
	auto align = size_t(g.choice(7));
	float f;
	memcpy(&f, &bits, sizeof(f));
	g.say([&] {
		return pbt::cat("float bits ", bits, be ? " be" : " le", " alignment ", align);
	});
	g.nontrivial();
	auto fill = g.byte();
	std::vector<uint8_t> buf(guard + align + 4 + guard, fill);
	std::vector<uint8_t> whole = buf;
	auto p = buf.data() + guard + align;
	for (size_t i = 0; i != 4; ++i) {
		whole[guard + align + (be ? 3 - i : i)] = uint8_t(bits >> (8 * i));
	}
	auto end = be ? utki::serialize_float_be(f, p) : utki::serialize_float_le(f, p);
	CHECK(end == p + 4);
	CHECK_EQ(buf, whole);
	pbt::exact<uint8_t> e(p, 4);
	float r = be ? utki::deserialize_float_be(e.data()) : utki::deserialize_float_le(e.data());
	uint32_t rb;
	memcpy(&rb, &r, sizeof(rb));
	CHECK_EQ(rb, bits);
}

PROPERTY("record", 2)
{
	// values written one after another through the returned position are read back from the same offsets
	struct field {
		unsigned kind;
		uint64_t value;
		size_t offset;
	};
	std::vector<field> fields;
	auto n = 1 + g.size(16);
	std::vector<uint8_t> buf(n * 8 + 8, 0xcd);
	auto p = buf.data();
	std::vector<uint8_t> model;
	for (size_t i = 0; i != n; ++i) {
		field f{};
		f.kind = unsigned(g.choice(7));
		f.offset = size_t(p - buf.data());
		CHECK_EQ(f.offset, model.size());
		auto put = [&](uint64_t v, unsigned w, bool be) {
			for (unsigned k = 0; k != w; ++k) {
				model.push_back(uint8_t(v >> (8 * (be ? w - 1 - k : k))));
			}
		};
		float fl;
		uint32_t fb;
		switch (f.kind) {
			case 0:
				f.value = g.integer<uint16_t>();
				p = utki::serialize16le(uint16_t(f.value), p);
				put(f.value, 2, false);
				break;
			case 1:
				f.value = g.integer<uint32_t>();
				p = utki::serialize32le(uint32_t(f.value), p);
				put(f.value, 4, false);
				break;
			case 2:
				f.value = g.integer<uint64_t>();
				p = utki::serialize64le(f.value, p);
				put(f.value, 8, false);
				break;
			case 3:
				f.value = g.integer<uint16_t>();
				p = utki::serialize16be(uint16_t(f.value), p);
				put(f.value, 2, true);
				break;
			case 4:
				f.value = g.integer<uint32_t>();
				p = utki::serialize32be(uint32_t(f.value), p);
				put(f.value, 4, true);
				break;
			case 5:
				f.value = g.integer<uint64_t>();
				p = utki::serialize64be(f.value, p);
				put(f.value, 8, true);
				break;
			case 6:
				fb = float_bits(g);
				f.value = fb;
				memcpy(&fl, &fb, 4);
				p = utki::serialize_float_le(fl, p);
				put(fb, 4, false);
				break;
			default:
				fb = float_bits(g);
				f.value = fb;
				memcpy(&fl, &fb, 4);
				p = utki::serialize_float_be(fl, p);
				put(fb, 4, true);
				break;
		}
		fields.push_back(f);
	}
	g.say([&] {
		return pbt::cat("record of ", n, " fields, bytes ", pbt::hex(model.data(), model.size()));
	});
	if (n > 1) {
		g.nontrivial();
	}
	CHECK_EQ(size_t(p - buf.data()), model.size());
	CHECK(std::equal(model.begin(), model.end(), buf.begin()));
	CHECK(std::all_of(buf.begin() + ptrdiff_t(model.size()), buf.end(), [](auto b) { return b == 0xcd; }));
	for (const auto& f : fields) {
		auto q = buf.data() + f.offset;
		uint64_t v = 0;
		float fl = 0;
		uint32_t fb = 0;
		switch (f.kind) {
			case 0:
				v = utki::deserialize16le(q);
				break;
			case 1:
				v = utki::deserialize32le(q);
				break;
			case 2:
				v = utki::deserialize64le(q);
				break;
			case 3:
				v = utki::deserialize16be(q);
				break;
			case 4:
				v = utki::deserialize32be(q);
				break;
			case 5:
				v = utki::deserialize64be(q);
				break;
			case 6:
				fl = utki::deserialize_float_le(q);
				memcpy(&fb, &fl, 4);
				v = fb;
				break;
			default:
				fl = utki::deserialize_float_be(q);
				memcpy(&fb, &fl, 4);
				v = fb;
				break;
		}
		CHECK_EQ(v, f.value, " kind ", f.kind);
	}
}
